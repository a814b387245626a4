package props

import (
	"bytes"
	"compress/zlib"
	"errors"
	"io"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C35", sym.Both, OwnErrors, "a command or chat message with an arbitrary byte that is not the expected one (five ways of asking for another), or text in an unknown encoding: the message carried by the error, and its text, do not change when the connection is read further")
	sym.Register("C36", sym.Both, ClosedFailing, "a writer closed over a transport that fails after 0..6 bytes or whose timeout cannot be armed, with 0..3 pending bytes, compression off or on: what was sent is a prefix of what was accepted, every later operation reports an error, sends nothing and does not crash")
	sym.Register("C34", sym.Both, SessionNMDC, "histories of 3 (thorough also 5, with plain chat only) operations of the writing side out of ten message kinds with an arbitrary character, keep-alive, veto, refused message, flush, compression on, compression off, binary data; plain or converted text; transport delivering one byte at a time, a first piece of 9 (thorough also 1, 20) bytes, or all at once (quick NMDC: the first two): the reading side gets the same messages and data in the same order")
	sym.Register("C34", sym.Both, SessionADC, "histories of 3 (thorough 4) operations of the writing side out of packets of six kinds with an arbitrary character, keep-alive, flush, compression on, compression off, binary data; transport delivering one byte at a time, a first piece of 9 (thorough also 1, 20) bytes, or all at once (quick NMDC: the first two): the reading side gets the same packets and data in the same order")
	sym.Register("C35", sym.Both, OwnNMDC, "a message of every NMDC command (30 complete payloads) with an arbitrary byte at any position: if it is decoded, overwriting the input and encoding it do not change it, decoding changes nothing behind the input, and it stays independent of a second one decoded from the same bytes")
	sym.Register("C35", sym.Both, OwnADC, "a message of every ADC command (19 complete payloads) with an arbitrary byte at any position: if it is decoded, overwriting the input and encoding it do not change it")
	sym.Register("C35", sym.Both, OwnPacket, "a line of every packet kind with every command and an arbitrary byte at any position: a decoded packet does not change when the line is overwritten, and decoding does not change the line")
	sym.Register("C35", sym.Both, OwnBuilt, "every NMDC message, empty and with an arbitrary character in each of its texts, searches of every type, packets of every kind and command with three conditions, an arbitrary one among them: encoding and sending them, with and without a text encoding, leaves them as they were")
	sym.Register("C35", sym.Both, OwnBuffer, "encoding messages and packets of every kind into a buffer with 0..3 arbitrary bytes of earlier data, twice in a row: the earlier data stays and both encodings are the same")
	sym.Register("C36", sym.Both, ClosedByHook, "a reader (plain, NMDC, ADC) or writer (plain, NMDC, ADC) closed by a hook of any kind on the first or second line or by the keep-alive callback, which keeps or drops it, with one arbitrary character: at most the message of the hook is delivered, every later operation reports an error, nothing more is sent and nothing crashes")
	sym.Register("C36", sym.Both, ClosedReader, "a reader closed before, between or behind lines, with decompression off or on, inside or outside of a binary section: every later read, decompression switch or section reports an error, nothing of the stream is delivered and nothing crashes; closing again is harmless")
	sym.Register("C36", sym.Both, ClosedWriter, "a writer closed with and without pending data, with compression off, on or switched off before: everything accepted has been sent, every later operation reports an error, sends nothing and does not crash")
}

// ---- sessions ----

type sessItem struct {
	kind int // 0 message, 1 raw data, 2 compression on
	msg  nmdc.Message
	pkt  adc.Packet
	data []byte
}

// sessSource delivers a stream byte by byte, with a first piece of some size,
// or at once.
func sessSource(data []byte, how int) io.Reader {
	switch how {
	case 0:
		return &oneByte{data}
	case 1:
		return &splitAt{data: data, at: 9, end: io.EOF}
	case 2:
		return &splitAt{data: data, end: io.EOF}
	case 3:
		return &splitAt{data: data, at: 1, end: io.EOF}
	}
	return &splitAt{data: data, at: 20, end: io.EOF}
}

func sessMessage(k int, s string) nmdc.Message {
	switch k {
	case 0:
		return &nmdc.ChatMessage{Name: "a", Text: s}
	case 1:
		return &nmdc.ChatMessage{Text: "x" + s}
	case 2:
		return &nmdc.PrivateMessage{To: "a" + s, From: "b", Name: "b", Text: s}
	case 3:
		return myInfo("n"+s, s, "c", s)
	case 4:
		return &nmdc.Search{Address: "1.2.3.4:5", DataType: nmdc.DataTypeAny, Pattern: s + " q"}
	case 5:
		return searchResult("u"+s, s+".x", "hub", "t")
	case 6:
		return &nmdc.GetNickList{}
	case 7:
		return &nmdc.OpList{Names: nmdc.Names{"a", s}}
	case 8:
		return &nmdc.HubTopic{Text: s}
	}
	return &nmdc.RawMessage{Typ: "Unknown", Data: []byte("x" + s)}
}

func SessionNMDC() {
	s := &sink{limit: -1}
	w := nmdc.NewWriter(s)
	ops, modes, deep := 3, sym.Bound(4, 10), false
	if sym.Bound(0, 1) == 1 && sym.Choose("deep", 2) == 1 {
		ops, modes, deep = 5, 4, true // longer histories of the operations that switch something
	}
	mode := sym.Choose("mode", modes)
	enc := mode%2 == 1
	if enc {
		w.SetEncoder(charsetEncoder())
	}
	veto := false
	w.OnMessage(func(m nmdc.Message) (bool, error) { return !veto, nil })
	var log []sessItem
	zon := false
	msgs := 0
	for i := 0; i < ops; i++ {
		switch sym.Choose("op", 6) {
		case 0:
			if deep {
				m := sessMessage(0, string([]byte{sym.ByteRange("c", 'a', 'z')}))
				sym.Assert(w.WriteMsg(m) == nil, "legal message refused")
				log = append(log, sessItem{msg: m})
				break
			}
			if sym.Choose("special", 5) == 4 {
				switch sym.Choose("which", 3) {
				case 0:
					sym.Assert(w.WriteKeepAlive() == nil, "keep-alive refused")
				case 1:
					veto = true
					sym.Assert(w.WriteMsg(&nmdc.HubTopic{Text: "vetoed"}) == nil, "vetoed message is an error")
					veto = false
				case 2:
					sym.Assert(w.WriteMsg(&nmdc.Hello{Name: "a\tb"}) != nil, "illegal message accepted")
				}
				break
			}
			c := sym.ByteRange("c", 'a', 'z')
			txt := string([]byte{c})
			if msgs == 0 && sym.Choose("special char", 2) == 1 {
				b := sym.Byte("special")
				sym.Assume(sym.OneOf(b, "&|$"))
				txt = "x" + string([]byte{b})
				m := &nmdc.HubTopic{Text: txt}
				sym.Assert(w.WriteMsg(m) == nil, "legal message refused")
				log = append(log, sessItem{msg: m})
				msgs++
				break
			}
			k := 0
			if msgs == 0 {
				k = sym.Choose("message", 10)
			} else {
				k = [...]int{0, 6}[sym.Choose("message", 2)]
			}
			m := sessMessage(k, txt)
			sym.Assert(w.WriteMsg(m) == nil, "legal message refused")
			log = append(log, sessItem{msg: m})
			msgs++
		case 1:
			sym.Assert(w.Flush() == nil, "flush failed")
		case 2:
			if zon {
				sym.Assert(w.DisableZlib() == nil, "compression not disabled")
				zon = false
				break
			}
			sym.Assert(w.ZOnLevel(zlib.BestSpeed) == nil, "compression not enabled")
			log = append(log, sessItem{kind: 2})
			zon = true
		case 3: // announced binary data
			off := zon && sym.Choose("plain", 2) == 1
			data := []byte{sym.Byte("data"), '|', '$', sym.Byte("data")}[:1+sym.Choose("size", 4)]
			m := &nmdc.ADCSnd{ContentType: "file", Identifier: "x", Start: 0, Length: uint64(len(data))}
			sym.Assert(w.WriteMsg(m) == nil, "legal message refused")
			if off {
				sym.Assert(w.DisableZlib() == nil, "compression not disabled")
				zon = false
			}
			n, err := w.Write(data)
			sym.Assert(err == nil && n == len(data), "data refused")
			log = append(log, sessItem{msg: m}, sessItem{kind: 1, data: data})
		case 4:
			// two messages in one call
			a, b := sessMessage(6, ""), sessMessage(0, "z")
			sym.Assert(w.WriteMsg(a, b) == nil, "legal message refused")
			log = append(log, sessItem{msg: a}, sessItem{msg: b})
		case 5:
			i = ops
		}
	}
	if zon || sym.Choose("end", 2) == 1 {
		sym.Assert(w.Close() == nil, "close failed")
	} else {
		sym.Assert(w.Flush() == nil, "flush failed")
	}
	r := nmdc.NewReader(sessSource(s.got, mode/2))
	if enc {
		r.SetDecoder(charsetDecoder())
	}
	for _, it := range log {
		switch it.kind {
		case 0:
			m, err := r.ReadMsg()
			sym.Assert(err == nil, "message lost")
			sym.Assert(sameMsg(m, it.msg), "message differs")
			sym.Reach("message")
		case 1:
			checkBinary(r.Reader, it.data)
		case 2:
			var z nmdc.ZOn
			sym.Assert(r.ReadMsgTo(&z) == nil, "compression command lost")
			sym.Assert(r.EnableZlib() == nil, "decompression refused")
		}
	}
	m, err := r.ReadMsg()
	sym.Assert(m == nil && err == io.EOF, "extra data")
}

// checkBinary reads a binary section completely or in part.
func checkBinary(r *lineproto.Reader, want []byte) {
	b, err := r.Binary(uint64(len(want)))
	sym.Assert(err == nil, "section refused")
	n := len(want)
	if n > 1 && sym.Choose("part", 2) == 1 {
		n = 1
	}
	got := make([]byte, n)
	_, err = io.ReadFull(b, got)
	sym.Assert(err == nil, "data lost")
	sym.Assert(sym.EqB(got, want[:n]), "data differs")
	sym.Assert(b.Close() == nil, "section close failed")
	sym.Reach("data")
}

func SessionADC() {
	s := &sink{limit: -1}
	w := adc.NewWriter(s)
	var log []sessItem
	zon := false
	alive := 0
	ops := sym.Bound(3, 4)
	pkts := 0
	from, to := adc.SID{'A', 'A', 'A', 'B'}, adc.SID{'C', 'C', 'C', 'D'}
	for i := 0; i < ops; i++ {
		switch sym.Choose("op", 6) {
		case 0:
			c := sym.ByteRange("c", 'a', 'z')
			if pkts == 0 {
				c = sym.Byte("c")
				sym.Assume(c != 0)
			}
			m := adc.ChatMessage{Text: string([]byte{'x', c})}
			var p adc.Packet
			k := 0
			if pkts == 0 {
				k = sym.Choose("kind", 6)
			}
			p = newPacket("IBDEFC"[k], from, to, adc.CID{}, []adc.FeatureSel{{Fea: adc.FeaTCP4, Sel: true}}, m)
			sym.Assert(w.WritePacket(p) == nil, "legal packet refused")
			log = append(log, sessItem{pkt: p})
			pkts++
		case 1:
			if sym.Choose("special", 2) == 1 {
				sym.Assert(w.WriteKeepAlive() == nil, "keep-alive refused")
				alive++
			} else {
				sym.Assert(w.Flush() == nil, "flush failed")
			}
		case 2:
			if zon {
				sym.Assert(w.DisableZlib() == nil, "compression not disabled")
				zon = false
				break
			}
			sym.Assert(w.WriteInfo(adc.ZOn{}) == nil, "message refused")
			sym.Assert(w.EnableZlib() == nil, "compression not enabled")
			log = append(log, sessItem{kind: 2})
			zon = true
		case 3:
			off := zon && sym.Choose("plain", 2) == 1
			data := []byte{sym.Byte("data"), '\n', sym.Byte("data")}[:1+sym.Choose("size", 3)]
			p := newPacket('C', from, to, adc.CID{}, nil, adc.GetResponse{Type: "file", Path: "x", Start: 0, Bytes: int64(len(data))})
			sym.Assert(w.WritePacket(p) == nil, "legal packet refused")
			if off {
				sym.Assert(w.DisableZlib() == nil, "compression not disabled")
				zon = false
			}
			n, err := w.Write(data)
			sym.Assert(err == nil && n == len(data), "data refused")
			log = append(log, sessItem{pkt: p}, sessItem{kind: 1, data: data})
		case 4:
			st := w.DirectStream(from, to)
			m := adc.Status{Sev: adc.Fatal, Code: 21, Msg: "nick taken"}
			sym.Assert(st.WriteMessage(m) == nil && st.Flush() == nil, "legal message refused")
			log = append(log, sessItem{pkt: newPacket('D', from, to, adc.CID{}, nil, m)})
		case 5:
			i = ops
		}
	}
	if zon || sym.Choose("end", 2) == 1 {
		sym.Assert(w.Close() == nil, "close failed")
	} else {
		sym.Assert(w.Flush() == nil, "flush failed")
	}
	r := adc.NewReader(sessSource(s.got, sym.Choose("transport", sym.Bound(3, 5))))
	seen := 0
	r.OnKeepAlive = func() error { seen++; return nil }
	for _, it := range log {
		switch it.kind {
		case 0:
			p, err := r.ReadPacket()
			sym.Assert(err == nil, "packet lost")
			sym.Assert(samePacket(p, it.pkt), "packet differs")
			sym.Reach("packet")
		case 1:
			checkBinary(r.Reader, it.data)
		case 2:
			m, err := r.ReadInfo()
			sym.Assert(err == nil, "compression command lost")
			_, ok := m.(adc.ZOn)
			sym.Assert(ok, "compression command lost")
			sym.Assert(r.EnableZlib() == nil, "decompression refused")
		}
	}
	p, err := r.ReadPacket()
	sym.Assert(p == nil && err == io.EOF, "extra data")
	sym.Assert(seen == alive, "keep-alives miscounted")
}

// ---- ownership ----

// wipe overwrites b.
func wipe(b []byte) {
	for i := range b {
		b[i] = '?'
	}
}

// anyOrder tells messages that are written in any order: those with several
// entries in a map.
func anyOrder(m interface{}) bool {
	switch m := m.(type) {
	case *nmdc.MyINFO:
		return len(m.Extra) > 1
	case adc.Supported:
		return len(m.Features) > 1
	case *adc.Supported:
		return len(m.Features) > 1
	}
	return false
}

const slackText = "|$Behind x|"

// slack is a copy of s with other data right behind it, as in a buffer of a reader.
func slack(s string) (data, behind []byte) {
	b := []byte(s + slackText)
	return b[:len(s)], b[len(s):]
}

func OwnNMDC() {
	k := sym.Choose("sample", len(nmdcSamples)+4)
	var sm samplePayload
	switch k {
	case 0:
		sm = samplePayload{"Unknown", "x y"}
	case 1:
		sm = samplePayload{"Key", "abc/%DCN000%/"}
	case 2:
		sm = samplePayload{"Hello", "joe"}
	case 3:
		sm = samplePayload{"HubTopic", "some &amp; text"}
	default:
		sm = nmdcSamples[k-4]
	}
	data, behind := slack(sm.data)
	data[sym.Choose("at", len(data))] = sym.Byte("x")
	orig := append([]byte(nil), data...)
	m, m2 := nmdc.NewMessage(sm.typ), nmdc.NewMessage(sm.typ)
	if sym.Choose("charset", 2) == 1 {
		err := m.UnmarshalNMDC(charsetDecoder(), data)
		sym.Assert(string(behind) == slackText, "decoding changes what is behind the command")
		sym.Observe("decoded", err == nil)
		return
	}
	err := m.UnmarshalNMDC(nil, data)
	sym.Assert(string(behind) == slackText, "decoding changes what is behind the command")
	if err != nil {
		return
	}
	was := sym.Clone(m)
	w1, err := nmdc.Marshal(nil, m)
	sym.Assert(sym.Same(was, m), "encoding changes the message")
	sym.Assert(m2.UnmarshalNMDC(nil, append([]byte(nil), orig...)) == nil, "decoded once only")
	wipe(data)
	sym.Assert(sym.Same(was, m), "message shares its input")
	w2, err2 := nmdc.Marshal(nil, m)
	sym.Assert((err == nil) == (err2 == nil), "message shares its input")
	if err != nil || anyOrder(m) {
		return
	}
	sym.Assert(sym.EqB(w1, w2), "message shares its input")
	w3, err := nmdc.Marshal(nil, m2)
	sym.Assert(err == nil && sym.EqB(w1, w3), "same bytes, another message")
	wipe(w1)
	w4, err := nmdc.Marshal(nil, m)
	sym.Assert(err == nil && sym.EqB(w4, w2), "encoding shares the message")
	// what was taken out of a message stays when the message is used again
	var parts nmdc.Message
	switch x := m.(type) {
	case *nmdc.RawMessage:
		c := *x
		parts = &c
	case *nmdc.OpList:
		c := *x
		parts = &c
	case *nmdc.BotList:
		c := *x
		parts = &c
	case *nmdc.UserIP:
		c := *x
		parts = &c
	case *nmdc.Supports:
		c := *x
		parts = &c
	case *nmdc.FailOver:
		c := *x
		parts = &c
	case *nmdc.UserCommand:
		c := *x
		parts = &c
	case *nmdc.SR:
		c := *x
		parts = &c
	case *nmdc.Search:
		c := *x
		parts = &c
	case *nmdc.MyINFO:
		c := *x
		parts = &c
	case *nmdc.ADCGet:
		c := *x
		parts = &c
	}
	if parts != nil {
		again := []byte(sm.data)
		for i, c := range again {
			if c >= 'a' && c < 'm' || c >= '1' && c < '8' || c >= 'A' && c < 'D' && sm.typ == "SR" {
				again[i]++
			}
		}
		_ = m.UnmarshalNMDC(nil, again)
		w5, err := nmdc.Marshal(nil, parts)
		sym.Assert(err == nil && sym.EqB(w5, w2), "a later message changes the parts of an earlier one")
		sym.Reach("reused")
	}
	sym.Reach("own")
}

func OwnADC() {
	sm := adcSamples[sym.Choose("sample", len(adcSamples))]
	data, behind := slack(sm.payload)
	if len(data) > 0 {
		data[sym.Choose("at", len(data))] = sym.Byte("x")
	}
	m, err := adc.UnmarshalMessage(msgType(sm.name), data)
	sym.Assert(string(behind) == slackText, "decoding changes what is behind the message")
	if err != nil {
		return
	}
	enc := func() ([]byte, bool) {
		buf := bytes.NewBuffer(nil)
		err := adc.Marshal(buf, m)
		return buf.Bytes(), err == nil
	}
	was := sym.Clone(m)
	w1, ok1 := enc()
	sym.Assert(sym.Same(was, m), "encoding changes the message")
	keep := append([]byte(nil), w1...)
	wipe(data)
	sym.Assert(sym.Same(was, m), "message shares its input")
	w2, ok2 := enc()
	sym.Assert(ok1 == ok2, "message shares its input")
	if anyOrder(m) {
		return
	}
	sym.Assert(!ok1 || sym.EqB(w1, w2), "message shares its input")
	wipe(w1)
	w3, ok3 := enc()
	sym.Assert(ok3 == ok1 && (!ok1 || sym.EqB(w3, keep)), "encoding shares the message")
	sym.Reach("own")
}

func OwnPacket() {
	sm := adcSamples[sym.Choose("sample", len(adcSamples))]
	kind := kinds[sym.Choose("kind", len(kinds))]
	line := refLine(kind, []byte(sm.name), adc.SID{'A', 'A', 'A', 'B'}, adc.SID{'C', 'C', 'C', 'D'}, adc.CID(sampleHash(3)), []adc.FeatureSel{{Fea: adc.FeaTCP4, Sel: true}}, []byte(sm.payload))
	line, behind := slack(string(line))
	line[sym.Choose("at", len(line)-1)] = sym.Byte("x")
	orig := append([]byte(nil), line...)
	p, err := adc.DecodePacket(line)
	sym.Assert(sym.EqB(line, orig), "decoding changes the line")
	sym.Assert(string(behind) == slackText, "decoding changes what is behind the line")
	raw, rerr := adc.DecodePacketRaw(line)
	sym.Assert(sym.EqB(line, orig), "decoding changes the line")
	if err != nil {
		return
	}
	sym.Assert(rerr == nil, "refused without decoding the message")
	sym.Assert(raw.Kind() == p.Kind(), "kind differs")
	ref, err := adc.DecodePacket(append([]byte(nil), line...))
	sym.Assert(err == nil, "decoded once only")
	was := sym.Clone(p)
	wipe(line)
	sym.Assert(sym.Same(was, p), "packet shares the line")
	a, b := bytes.NewBuffer(nil), bytes.NewBuffer(nil)
	err1, err2 := p.MarshalPacketADC(a), ref.MarshalPacketADC(b)
	sym.Assert((err1 == nil) == (err2 == nil), "packet shares the line")
	sym.Assert(err1 != nil || a.Len() == b.Len(), "packet shares the line")
	if anyOrder(p.Message()) {
		return
	}
	sym.Assert(err1 != nil || sym.EqB(a.Bytes(), b.Bytes()), "packet shares the line")
	sym.Assert(sym.Same(was, p), "encoding changes the packet")
	sym.Reach("own")
}

// OwnBuilt: messages a program builds are not changed by being sent.
func OwnBuilt() {
	if sym.Choose("protocol", 2) == 0 {
		types := nmdc.RegisteredTypes()
		var m nmdc.Message
		if k := sym.Choose("message", len(types)+len(textFields)+1); k < len(types) {
			m = nmdc.NewMessage(types[k])
		} else if k -= len(types); k < len(textFields) {
			c := sym.ByteRange("c", 1, 0x7f)
			m = textFields[k]("x" + string([]byte{c}) + "y")
		} else {
			m = &nmdc.Search{Address: "1.2.3.4:5", Size: 1, IsMaxSize: sym.Bool("max"), DataType: nmdc.DataType(sym.ByteRange("type", 0, 12)), Pattern: "a b"}
		}
		was := sym.Clone(m)
		buf := bytes.NewBuffer(nil)
		w := nmdc.NewWriter(buf)
		var err1 error
		if sym.Choose("charset", 2) == 1 {
			w.SetEncoder(charsetEncoder())
			_, err1 = nmdc.Marshal(charsetEncoder(), m)
		} else {
			_, err1 = nmdc.Marshal(nil, m)
		}
		sym.Assert(sym.Same(was, m), "encoding changes the message")
		err := w.WriteMsg(m)
		sym.Assert((err == nil) == (err1 == nil), "writer and encoder disagree")
		sym.Assert(sym.Same(was, m), "sending changes the message")
		sym.Reach("nmdc")
		return
	}
	sel := []adc.FeatureSel{{Fea: adc.FeaTCP4, Sel: sym.Bool("wanted")}, {Fea: adc.Feature(someSID("feature")), Sel: sym.Bool("wanted")}, {Fea: adc.FeaSEGA, Sel: sym.Bool("wanted")}}
	sm := adcSamples[sym.Choose("sample", len(adcSamples))]
	m, err := adc.UnmarshalMessage(msgType(sm.name), []byte(sm.payload))
	sym.Assert(err == nil, "sample refused")
	if sym.Choose("empty", 2) == 1 {
		m, _ = adc.UnmarshalMessage(msgType(sm.name), nil)
		if m == nil {
			return
		}
	}
	kind := kinds[sym.Choose("kind", len(kinds))]
	p := newPacket(kind, someSID("from"), someSID("to"), adc.CID(sampleHash(3)), sel, m)
	was := sym.Clone(p)
	buf := bytes.NewBuffer(nil)
	err = p.MarshalPacketADC(buf)
	sym.Assert(sym.Same(was, p), "encoding changes the packet")
	w := adc.NewWriter(buf)
	sym.Assert((w.WritePacket(p) == nil) == (err == nil), "writer and encoder disagree")
	sym.Assert(sym.Same(was, p), "sending changes the packet")
	sym.Reach("adc")
}

func OwnBuffer() {
	prev := []byte(sym.Str("prev", 3))
	buf := bytes.NewBuffer(nil)
	buf.Write(prev)
	if sym.Choose("protocol", 2) == 1 {
		sm := adcSamples[sym.Choose("sample", len(adcSamples))]
		data := []byte(sm.payload)
		if len(data) > 0 {
			data[[...]int{0, len(data) / 2, len(data) - 1}[sym.Choose("at", 3)]] = sym.Byte("x")
		}
		m, err := adc.UnmarshalMessage(msgType(sm.name), data)
		if err != nil || adc.Marshal(bytes.NewBuffer(nil), m) != nil || anyOrder(m) {
			return
		}
		k := sym.Choose("kind", len(kinds)+1)
		once := func() int {
			if k < len(kinds) {
				p := newPacket(kinds[k], adc.SID{'A', 'A', 'A', 'B'}, adc.SID{'C', 'C', 'C', 'D'}, adc.CID(sampleHash(3)), nil, m)
				sym.Assert(p.MarshalPacketADC(buf) == nil, "decoded message cannot be encoded")
			} else {
				sym.Assert(adc.Marshal(buf, m) == nil, "decoded message cannot be encoded")
			}
			return buf.Len()
		}
		a := once()
		b := once()
		checkTwice(buf.Bytes(), prev, a, b)
		return
	}
	sm := nmdcSamples[sym.Choose("sample", len(nmdcSamples))]
	m := nmdc.NewMessage(sm.typ)
	data := []byte(sm.data)
	data[[...]int{0, len(data) / 2, len(data) - 1}[sym.Choose("at", 3)]] = sym.Byte("x")
	if m.UnmarshalNMDC(nil, data) != nil {
		return
	}
	if _, err := nmdc.Marshal(nil, m); err != nil || anyOrder(m) {
		return
	}
	sym.Assert(nmdc.MarshalTo(nil, buf, m) == nil, "decoded message cannot be encoded")
	a := buf.Len()
	sym.Assert(nmdc.MarshalTo(nil, buf, m) == nil, "decoded message cannot be encoded")
	checkTwice(buf.Bytes(), prev, a, buf.Len())
}

func checkTwice(w, prev []byte, a, b int) {
	n := len(prev)
	sym.Assert(a >= n && b >= a && len(w) == b, "earlier data lost")
	sym.Assert(sym.EqB(w[:n], prev), "earlier data changed")
	sym.Assert(sym.EqB(w[n:a], w[a:b]), "second encoding differs")
	sym.Reach("twice")
}

// OwnErrors: errors outlive the line they are about.
func OwnErrors() {
	c := sym.Byte("c")
	sym.Assume(sym.And(c != '|', c != 0))
	line := []byte{'$', 'H', 'e', 'l', 'l', 'o', ' ', c, 'b', '|'}
	chat := sym.Choose("chat", 2) == 1
	if chat {
		sym.Assume(c != '$')
		line = []byte{c, 'b', '|'}
	}
	want := append([]byte(nil), line[len(line)-3:len(line)-1]...)
	data := append(append([]byte(nil), line...), "$Quit zzzzzz|yyyyyyyyyyyyyyyyyyyy|"...)
	r := nmdc.NewReader(sessSource(data, sym.Choose("transport", 3)))
	var err error
	switch sym.Choose("ask", 5) {
	case 0:
		err = r.ReadMsgTo(&nmdc.Quit{})
	case 1:
		_, err = r.ReadMsgToAny(&nmdc.Quit{}, &nmdc.MyNick{})
	case 2:
		if chat {
			err = r.ReadMsgTo(&nmdc.MyNick{})
		} else {
			err = r.ReadMsgTo(&nmdc.ChatMessage{})
		}
	case 3:
		if chat {
			_, err = r.ReadMsgToAny(&nmdc.MyNick{})
		} else {
			_, err = r.ReadMsgToAny(&nmdc.ChatMessage{})
		}
	case 4:
		_, err = r.ReadMsg() // unknown encoding, illegal name or fine
		if err == nil {
			return
		}
		before := err.Error()
		_, _ = r.ReadMsg()
		_, _ = r.ReadMsg()
		sym.Assert(sym.Eq(err.Error(), before), "text of the error changed")
		sym.Reach("text")
		return
	}
	e, ok := err.(*nmdc.ErrUnexpectedCommand)
	sym.Assert(ok, "unexpected message not reported as such")
	sym.Assert(chat == (e.Received.Typ == ""), "type of the unexpected message")
	sym.Assert(sym.EqB(e.Received.Data, want), "unexpected message differs")
	got := e.Received.Data
	m, err := r.ReadMsg()
	sym.Assert(err == nil && m.Type() == "Quit", "the next message is lost")
	m, err = r.ReadMsg()
	sym.Assert(err == nil && m.Type() == "", "the next message is lost")
	sym.Assert(sym.EqB(got, want), "unexpected message changed by reading on")
	sym.Reach("kept")
}

// ---- closed readers and writers ----

func ClosedReader() {
	s := &sink{limit: -1}
	w := lineproto.NewWriter(s)
	z := sym.Choose("zlib", 2) == 1
	sym.Assert(w.WriteLine([]byte("a|")) == nil, "line refused")
	if z {
		sym.Assert(w.EnableZlib() == nil, "compression not enabled")
	}
	content := append([]byte{sym.Byte("x"), sym.Byte("x"), '|'}, "123c|"...)
	_, err := w.Write(content)
	sym.Assert(err == nil, "data refused")
	sym.Assert(w.Close() == nil, "close failed")
	r := lineproto.NewReader(&splitAt{data: s.got, at: sym.Choose("first", 4), end: io.EOF}, '|')
	hooks := 0
	r.OnLine(func([]byte) (bool, error) { hooks++; return true, nil })
	var sec io.ReadCloser
	when := sym.Choose("when", 4)
	if when > 0 {
		l, err := r.ReadLine()
		sym.Assert(err == nil && string(l) == "a|", "line lost")
		if z {
			sym.Assert(r.EnableZlib() == nil, "decompression refused")
		}
	}
	end := 0
	if when > 1 {
		for end < len(content) && content[end] != '|' {
			end++
		}
		end++
		l, err := r.ReadLine()
		sym.Assert(err == nil && sym.EqB(l, content[:end]), "line lost")
	}
	if when > 2 {
		var err error
		sec, err = r.Binary(3)
		sym.Assert(err == nil, "section refused")
		b := make([]byte, 1)
		n, err := sec.Read(b)
		sym.Assert(n == 1 && err == nil && b[0] == content[end], "section bytes")
	}
	hooks = 0
	sym.Assert(r.Close() == nil, "close failed")
	for i := 0; i < 2; i++ {
		switch sym.Choose("op", 7) {
		case 0:
			l, err := r.ReadLine()
			sym.Assert(err != nil && len(l) == 0, "line delivered after the close")
			sym.Assert(err != io.EOF, "close reported as the end of the stream")
		case 1:
			b := make([]byte, 4)
			n, err := r.Read(b)
			sym.Assert(err != nil && n == 0, "data delivered after the close")
			sym.Assert(err != io.EOF, "close reported as the end of the stream")
		case 2:
			sym.Assert(r.EnableZlib() != nil, "decompression enabled after the close")
		case 3:
			b, err := r.Binary(uint64(sym.Choose("size", 2)))
			sym.Assert(err != nil && b == nil, "section after the close")
		case 4:
			if sec != nil {
				b := make([]byte, 4)
				n, err := sec.Read(b)
				sym.Assert(err != nil && n == 0, "data delivered after the close")
			}
		case 5:
			if sec != nil {
				sym.Assert(sec.Close() != nil, "unread section closed without an error")
			}
		case 6:
			sym.Assert(r.Close() == nil, "second close failed")
			r.SetMaxLine(5)
		}
	}
	sym.Assert(hooks == 0, "hook called after the close")
	sym.Reach("closed")
}

func ClosedFailing() {
	z := sym.Choose("zlib", 2) == 1
	s := &sink{limit: sym.Choose("limit", 7) - 1}
	w := lineproto.NewWriter(s)
	arm := sym.Choose("timeout", 3)
	closing := false
	if arm > 0 {
		w.Timeout = func(enable bool) error {
			if enable && closing && arm == 2 {
				return errSink
			}
			return nil
		}
	}
	accepted := true
	if z {
		accepted = w.EnableZlib() == nil
	}
	var want []byte
	if accepted {
		want = sym.Bytes("data", sym.Choose("n", 4))
		n, err := w.Write(want)
		accepted = err == nil
		sym.Assert(!accepted || n == len(want), "short write without an error")
		if sym.Choose("flush", 2) == 1 && accepted {
			accepted = w.Flush() == nil
		}
	}
	closing = true
	err := w.Close()
	if s.failed {
		sym.Reach("failed")
	}
	if accepted && (s.failed || arm == 2) && !z {
		sym.Assert(err != nil, "close hides the failure")
	}
	if !s.failed && arm != 2 {
		sym.Assert(err == nil, "close failed")
		sym.Reach("closed")
	}
	if !z {
		sym.Assert(len(s.got) <= len(want) && sym.EqB(s.got, want[:len(s.got)]), "other data sent")
	}
	sent, after := len(s.got), s.after
	sym.Assert(w.Err() != nil, "no error after the close")
	for i := 0; i < 2; i++ {
		switch sym.Choose("op", 6) {
		case 0:
			sym.Assert(w.WriteLine([]byte("x|")) != nil, "line accepted after the close")
		case 1:
			n, err := w.Write([]byte("x"))
			sym.Assert(err != nil && n == 0, "data accepted after the close")
		case 2:
			sym.Assert(w.Flush() != nil, "flush after the close")
		case 3:
			sym.Assert(w.EnableZlib() != nil, "compression enabled after the close")
		case 4:
			sym.Assert(w.DisableZlib() != nil, "compression disabled after the close")
		case 5:
			_ = w.Close() // harmless, whatever it reports
		}
	}
	sym.Assert(len(s.got) == sent && s.after == after, "data sent after the close")
}

func ClosedWriter() {
	s := &sink{limit: -1}
	w := lineproto.NewWriterSize(s, [...]int{0, 4}[sym.Choose("buffer", 2)])
	hooks, timeouts := 0, 0
	w.OnLine(func([]byte) (bool, error) { hooks++; return true, nil })
	w.Timeout = func(enable bool) error {
		if enable {
			timeouts++
		} else {
			timeouts--
		}
		return nil
	}
	z := sym.Choose("zlib", 3)
	if z > 0 {
		sym.Assert(w.EnableZlib() == nil, "compression not enabled")
	}
	var want []byte
	for i := sym.Choose("lines", 3); i > 0; i-- {
		b := payload(true, 2)
		sym.Assert(w.WriteLine(b) == nil, "line refused")
		want = append(want, b...)
	}
	if z == 2 {
		sym.Assert(w.DisableZlib() == nil, "compression not disabled")
		b := payload(true, 1)
		sym.Assert(w.WriteLine(b) == nil, "line refused")
		want = append(want, b...)
	}
	if sym.Choose("flush", 2) == 1 {
		sym.Assert(w.Flush() == nil, "flush failed")
	}
	sym.Assert(w.Close() == nil, "close failed")
	sym.Assert(timeouts == 0, "timeout left armed")
	sent := len(s.got)
	r := lineproto.NewReader(&splitAt{data: s.got, end: io.EOF}, '|')
	if z > 0 {
		sym.Assert(r.EnableZlib() == nil, "decompression refused")
	}
	got, err := readSome(r, len(want)+1)
	sym.Assert(err == io.EOF && sym.EqB(got, want), "close did not deliver everything")
	hooks = 0
	for i := 0; i < 2; i++ {
		switch sym.Choose("op", 7) {
		case 0:
			sym.Assert(w.WriteLine([]byte("x|")) != nil, "line accepted after the close")
		case 1:
			n, err := w.Write([]byte("x"))
			sym.Assert(err != nil && n == 0, "data accepted after the close")
		case 2:
			sym.Assert(w.Flush() != nil, "flush after the close")
		case 3:
			sym.Assert(w.EnableZlib() != nil, "compression enabled after the close")
		case 4:
			sym.Assert(w.DisableZlib() != nil, "compression disabled after the close")
		case 5:
			sym.Assert(w.Err() != nil, "no error after the close")
		case 6:
			_ = w.Close() // harmless, whatever it reports
		}
	}
	sym.Assert(len(s.got) == sent, "data sent after the close")
	sym.Assert(hooks == 0 && timeouts == 0, "hooks called after the close")
	nw := nmdc.NewWriter(&sink{limit: -1})
	sym.Assert(nw.Close() == nil, "close failed")
	sym.Assert(nw.WriteMsg(&nmdc.ChatMessage{Text: "x"}) != nil, "message accepted after the close")
	sym.Assert(nw.ZOn() != nil, "compression enabled after the close")
	aw := adc.NewWriter(&sink{limit: -1})
	sym.Assert(aw.Close() == nil, "close failed")
	sym.Assert(aw.WriteInfo(adc.ZOn{}) != nil, "message accepted after the close")
	nr := nmdc.NewReader(bytes.NewReader([]byte("$Hello x|")))
	sym.Assert(nr.Close() == nil, "close failed")
	m, err := nr.ReadMsg()
	sym.Assert(m == nil && err != nil && !errors.Is(err, io.EOF), "message delivered after the close")
	ar := adc.NewReader(bytes.NewReader([]byte("IMSG x\n")))
	sym.Assert(ar.Close() == nil, "close failed")
	p, err := ar.ReadPacket()
	sym.Assert(p == nil && err != nil && !errors.Is(err, io.EOF), "packet delivered after the close")
	sym.Reach("closed")
}

// ClosedByHook: a hook closes the connection it is called for.
func ClosedByHook() {
	second := sym.Choose("second", 2) == 1
	keep := sym.Choose("keep", 2) == 1
	more := sym.Choose("hooks", 2) == 1 // another hook behind it
	c := string([]byte{sym.ByteRange("c", 'a', 'z')})
	skip := 0
	if second {
		skip = 1
	}
	// read reads until the end and counts what is delivered
	check := func(read func() error, rd *lineproto.Reader, isKeep bool) {
		n := 0
		for i := 0; i < 5; i++ {
			if read() == nil {
				n++
			}
		}
		sym.Assert(n == skip || n == skip+1 && isKeep, "number of messages delivered by a reader closed by a hook")
		var b [4]byte
		k, err := rd.Read(b[:])
		sym.Assert(k == 0 && err != nil, "data from a closed reader")
		sym.Assert(rd.EnableZlib() != nil, "decompression enabled on a closed reader")
		sym.Reach("reader")
	}
	n := -skip
	var closer io.Closer
	hook := func() bool {
		n++
		if n != 1 {
			return true
		}
		closer.Close()
		return keep
	}
	onLine := func([]byte) (bool, error) { return hook(), nil }
	other := func([]byte) (bool, error) { return true, nil }
	kind := sym.Choose("kind", 11)
	switch kind {
	case 0:
		r := lineproto.NewReader(bytes.NewReader([]byte("a|"+c+"|b|c|")), '|')
		closer = r
		r.OnLine(onLine)
		if more {
			r.OnLine(other)
		}
		check(func() error { _, err := r.ReadLine(); return err }, r, keep)
	case 1, 2, 3, 4, 5:
		data := "<a> " + c + "|<b> c|<c> d|<d> e|"
		switch kind {
		case 4:
			data, keep, n = "|<a> "+c+"|<b> c|", true, 0
		case 5:
			data, n = "<|<a> "+c+"|<b> c|", 0
		}
		r := nmdc.NewReader(bytes.NewReader([]byte(data)))
		closer = r
		switch kind {
		case 1:
			r.OnLine(onLine)
			if more {
				r.OnLine(other)
			}
		case 2:
			r.OnRawMessage(func(_, args []byte) (bool, error) { return onLine(args) })
		case 3:
			r.OnMessage(func(nmdc.Message) (bool, error) { return hook(), nil })
		case 4:
			r.OnKeepAlive = func() error { hook(); return nil }
		case 5:
			r.OnUnmarshalError = func(text []byte, err error) (bool, error) { hook(); return false, nil }
		}
		if kind >= 4 {
			skip = 0
		}
		check(func() error { _, err := r.ReadMsg(); return err }, r.Reader, keep && kind < 4)
	case 6, 7:
		data := "HMSG " + c + "\nHMSG b\nHMSG c\n"
		if kind == 7 {
			data, skip, n = "\n"+data, 0, 0
		}
		r := adc.NewReader(bytes.NewReader([]byte(data)))
		closer = r
		if kind == 6 {
			r.OnLine(onLine)
			if more {
				r.OnLine(other)
			}
		} else {
			r.OnKeepAlive = func() error { hook(); return nil }
		}
		check(func() error { _, err := r.ReadPacket(); return err }, r.Reader, keep && kind < 7)
	default:
		s := &sink{limit: -1}
		var (
			w     *lineproto.Writer
			write func() error
			lines []byte
		)
		switch kind {
		case 8:
			w = lineproto.NewWriter(s)
			write = func() error { return w.WriteLine([]byte(c + "|")) }
			lines = []byte(c + "|")
		case 9:
			nw := nmdc.NewWriter(s)
			w = nw.Writer
			write = func() error { return nw.WriteMsg(&nmdc.ChatMessage{Text: c}) }
			lines = []byte(c + "|")
			if more {
				nw.OnMessage(func(nmdc.Message) (bool, error) { return hook(), nil })
			}
		case 10:
			aw := adc.NewWriter(s)
			w = aw.Writer
			write = func() error { return aw.WriteHub(&adc.ChatMessage{Text: c}) }
			lines = []byte("HMSG " + c + "\n")
		}
		closer = w
		if kind != 9 || !more {
			w.OnLine(onLine)
			if more {
				w.OnLine(other)
			}
		}
		if second {
			sym.Assert(write() == nil, "legal line refused")
		}
		err := write()
		if keep {
			sym.Assert(err != nil, "line accepted by a closed writer")
		}
		sym.Assert(write() != nil && w.Flush() != nil && w.EnableZlib() != nil, "operation of a closed writer")
		_, err = w.Write([]byte("x"))
		sym.Assert(err != nil, "operation of a closed writer")
		sym.Assert(len(s.got) == skip*len(lines), "sent by a closed writer")
		sym.Assert(sym.EqB(s.got, append([]byte(nil), lines[:len(s.got)]...)), "accepted line not sent")
		sym.Reach("writer")
	}
}
