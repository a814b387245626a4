package props

import (
	"bytes"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/adc/types"

	"verif/harness/sym"
)

func init() {
	sym.Register("C22", sym.Both, PacketTrip, "packets of all eight kinds with arbitrary command name, addresses, 0..2 (thorough 3) feature conditions and 0..3 (thorough 5) arbitrary payload bytes: exactly the line the protocol defines, decoded to the same packet; the payload of a decoded packet is independent of the line")
	sym.Register("C22", sym.Both, PacketWire, "lines of all eight kinds with 0..14 (thorough 20; feature 0..18, thorough 26) arbitrary bytes after the name (no newline or NUL; no spaces inside a session identifier): accepted exactly when the addressing is complete, with the addresses and payload written")
	sym.Register("C22", sym.Both, PacketFrame, "lines of 0..7 (thorough 8) arbitrary bytes without inner newline: accepted only with a known kind, a name, a separator and the final newline")
	sym.Register("C22", sym.Both, PacketUDP, "client-addressed lines with the identifier damaged at any position, cut at any length or followed by another byte: never mis-addressed")
	sym.Register("C22", sym.Both, PacketTyped, "packets of all eight kinds with a chat message, a status, a search or an empty message: decoded to the same message, with the same kind and addresses, also when asked for a given message type")
}

var kinds = "IHBDECFU"

// newPacket builds a packet of the given kind.
func newPacket(kind byte, from, to adc.SID, cid adc.CID, sel []adc.FeatureSel, m adc.Message) adc.Packet {
	sel = append([]adc.FeatureSel(nil), sel...) // the packet's own
	switch kind {
	case 'I':
		return &adc.InfoPacket{Msg: m}
	case 'H':
		return &adc.HubPacket{Msg: m}
	case 'B':
		return &adc.BroadcastPacket{ID: from, Msg: m}
	case 'D':
		return &adc.DirectPacket{ID: from, To: to, Msg: m}
	case 'E':
		return &adc.EchoPacket{ID: from, To: to, Msg: m}
	case 'C':
		return &adc.ClientPacket{Msg: m}
	case 'F':
		return &adc.FeaturePacket{ID: from, Sel: sel, Msg: m}
	}
	return &adc.UDPPacket{ID: cid, Msg: m}
}

// refLine is the line of a packet.
func refLine(kind byte, name []byte, from, to adc.SID, cid adc.CID, sel []adc.FeatureSel, payload []byte) []byte {
	out := append([]byte{kind}, name...)
	word := func(b []byte) {
		out = append(out, ' ')
		out = append(out, b...)
	}
	switch kind {
	case 'B', 'F':
		word(from[:])
	case 'D', 'E':
		word(from[:])
		word(to[:])
	case 'U':
		word([]byte(refBase32.EncodeToString(cid[:])))
	}
	if kind == 'F' {
		for _, s := range sel {
			c := byte('-')
			if s.Sel {
				c = '+'
			}
			word(append([]byte{c}, s.Fea[:]...))
		}
	}
	if len(payload) > 0 {
		word(payload)
	}
	return append(out, '\n')
}

// checkPacket compares the addressing of a packet.
func checkPacket(p adc.Packet, kind byte, from, to adc.SID, cid adc.CID, sel []adc.FeatureSel) {
	sym.Assert(p.Kind() == kind, "kind altered")
	switch p := p.(type) {
	case *adc.InfoPacket:
		sym.Assert(kind == 'I', "packet type")
	case *adc.HubPacket:
		sym.Assert(kind == 'H', "packet type")
	case *adc.ClientPacket:
		sym.Assert(kind == 'C', "packet type")
	case *adc.BroadcastPacket:
		sym.Assert(kind == 'B', "packet type")
		sym.Assert(sym.EqB(p.ID[:], from[:]), "source altered")
	case *adc.DirectPacket:
		sym.Assert(kind == 'D', "packet type")
		sym.Assert(sym.EqB(p.ID[:], from[:]), "source altered")
		sym.Assert(sym.EqB(p.To[:], to[:]), "target altered")
	case *adc.EchoPacket:
		sym.Assert(kind == 'E', "packet type")
		sym.Assert(sym.EqB(p.ID[:], from[:]), "source altered")
		sym.Assert(sym.EqB(p.To[:], to[:]), "target altered")
	case *adc.UDPPacket:
		sym.Assert(kind == 'U', "packet type")
		sym.Assert(sym.EqB(p.ID[:], cid[:]), "client identifier altered")
	case *adc.FeaturePacket:
		sym.Assert(kind == 'F', "packet type")
		sym.Assert(sym.EqB(p.ID[:], from[:]), "source altered")
		sym.Assert(len(p.Sel) == len(sel), "number of feature conditions")
		for i := range sel {
			sym.Assert(sym.EqB(p.Sel[i].Fea[:], sel[i].Fea[:]), "feature altered")
			sym.Assert(p.Sel[i].Sel == sel[i].Sel, "feature condition flipped")
		}
	default:
		sym.Assert(false, "packet type")
	}
	if q, ok := p.(adc.PeerPacket); ok {
		src := q.Source()
		sym.Assert(sym.EqB(src[:], from[:]), "Source")
	} else {
		sym.Assert(kind == 'I' || kind == 'H' || kind == 'C' || kind == 'U', "no Source")
	}
	if q, ok := p.(adc.TargetPacket); ok {
		dst := q.Target()
		sym.Assert(sym.EqB(dst[:], to[:]), "Target")
	} else {
		sym.Assert(kind != 'D' && kind != 'E', "no Target")
	}
}

func someSel(kind byte, max int) []adc.FeatureSel {
	if kind != 'F' {
		return nil
	}
	var sel []adc.FeatureSel
	n := sym.Choose("conditions", max+1)
	for i := 0; i < n; i++ {
		sel = append(sel, adc.FeatureSel{Fea: adc.Feature(someSID("feature")), Sel: sym.Bool("wanted")})
	}
	return sel
}

// somePayload is arbitrary payload of a packet.
func somePayload(kind byte, max int) []byte {
	p := []byte(sym.Str("payload", max))
	sym.None(string(p), "\n\x00")
	if kind == 'F' && len(p) > 0 {
		sym.None(string(p[:1]), "+-")
	}
	return p
}

func PacketTrip() {
	kind := kinds[sym.Choose("kind", len(kinds))]
	var name adc.MsgType
	for i := range name {
		name[i] = wordByte("name")
	}
	from, to := someSID("from"), someSID("to")
	cid := adc.CID(sampleHash(3))
	if kind == 'U' {
		cid = adc.CID(someHash("cid"))
	}
	sel := someSel(kind, sym.Bound(2, 3))
	payload := somePayload(kind, sym.Bound(3, 5))
	p := newPacket(kind, from, to, cid, sel, &adc.RawMessage{Type: name, Data: payload})
	buf := bytes.NewBuffer(nil)
	buf.WriteString("prev")
	sym.Assert(p.MarshalPacketADC(buf) == nil, "legal packet refused by the encoder")
	w := buf.Bytes()
	sym.Assert(len(w) > 4 && string(w[:4]) == "prev", "earlier data in the buffer")
	w = w[4:]
	sym.Observe("line", w)
	sym.Assert(sym.EqB(w, refLine(kind, name[:], from, to, cid, sel, payload)), "not the line the protocol defines")

	line := append([]byte(nil), w...)
	q, err := adc.DecodePacketRaw(line)
	sym.Assert(err == nil, "encoded packet refused by the decoder")
	checkPacket(q, kind, from, to, cid, sel)
	raw, ok := q.Message().(*adc.RawMessage)
	sym.Assert(ok, "payload is not raw")
	sym.Assert(sym.EqB(raw.Type[:], name[:]), "name altered")
	sym.Assert(sym.EqB(raw.Data, payload), "payload altered")
	sym.Assert(sym.EqB(line, w), "the line was modified")
	sym.Reach("raw")

	// names starting with a lower-case letter are not registered
	name[0] = 'x'
	line = refLine(kind, name[:], from, to, cid, sel, payload)
	q, err = adc.DecodePacket(line)
	sym.Assert(err == nil, "encoded packet refused by the decoder")
	for i := range line {
		line[i] = '?'
	}
	checkPacket(q, kind, from, to, cid, sel)
	raw, ok = q.Message().(*adc.RawMessage)
	sym.Assert(ok, "unknown command is not raw")
	sym.Assert(sym.EqB(raw.Type[:], name[:]), "name altered")
	sym.Assert(sym.EqB(raw.Data, payload), "payload depends on the line")
	sym.Reach("decoded")
}

func PacketWire() {
	kind := kinds[sym.Choose("kind", len(kinds)-1)]
	n := sym.Bound(14, 20)
	switch kind {
	case 'I', 'H', 'C':
		n = 6
	case 'F':
		n = sym.Bound(18, 26)
	case 'B':
		n = 9
	}
	rest := []byte(sym.Str("rest", n))
	sym.None(string(rest), "\n\x00")
	line := []byte{kind, 'M', 'S', 'G'}
	if sym.Choose("bare", 2) == 1 {
		sym.Assume(len(rest) == 0)
	} else {
		line = append(line, ' ')
	}
	line = append(append(line, rest...), '\n')

	var ids []adc.SID
	var sel []adc.FeatureSel
	ok := true
	left := rest
	addr := 0
	switch kind {
	case 'B', 'F':
		addr = 1
	case 'D', 'E':
		addr = 2
	}
	for i := 0; i < addr && ok; i++ {
		// what is not a separator where one is due cannot be part of an identifier
		for j := 0; j < 4 && j < len(left); j++ {
			sym.Assume(left[j] != ' ')
		}
		if len(left) < 4 || len(left) > 4 && left[4] != ' ' {
			ok = false
			break
		}
		var id adc.SID
		copy(id[:], left)
		ids = append(ids, id)
		left = left[4:]
		if len(left) > 0 {
			left = left[1:]
		} else if i+1 < addr {
			ok = false
		}
	}
	if kind == 'F' {
		for ok && len(left) > 0 {
			if left[0] != '+' && left[0] != '-' {
				break
			}
			for j := 1; j < 5 && j < len(left); j++ {
				sym.Assume(left[j] != ' ')
			}
			if len(left) < 5 || len(left) > 5 && left[5] != ' ' {
				ok = false
				break
			}
			var f adc.Feature
			copy(f[:], left[1:])
			sel = append(sel, adc.FeatureSel{Fea: f, Sel: left[0] == '+'})
			left = left[5:]
			if len(left) > 0 {
				left = left[1:]
			}
		}
	}
	p, err := adc.DecodePacketRaw(append([]byte(nil), line...))
	sym.Observe("accepted", err == nil)
	if !ok {
		sym.Assert(err != nil, "malformed addressing accepted")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "well-formed line refused")
	var from, to adc.SID
	if addr > 0 {
		from = ids[0]
	}
	if addr > 1 {
		to = ids[1]
	}
	checkPacket(p, kind, from, to, adc.CID{}, sel)
	raw, isRaw := p.Message().(*adc.RawMessage)
	sym.Assert(isRaw, "payload is not raw")
	sym.Assert(raw.Type == adc.MsgType{'M', 'S', 'G'}, "name altered")
	sym.Assert(sym.EqB(raw.Data, left), "payload altered")
	sym.Reach("accepted")
}

func PacketFrame() {
	line := []byte(sym.Str("line", sym.Bound(7, 8)))
	for i := 0; i+1 < len(line); i++ {
		sym.Assume(line[i] != '\n')
	}
	p, err := adc.DecodePacketRaw(append([]byte(nil), line...))
	if err != nil {
		sym.Reach("refused")
		return
	}
	n := len(line)
	sym.Assert(n >= 5, "too short for a command")
	sym.Assert(line[n-1] == '\n', "line without its end accepted")
	sym.Assert(sym.OneOf(line[0], kinds), "unknown kind accepted")
	sym.Assert(sym.Or(line[4] == ' ', line[4] == '\n'), "name without separator accepted")
	for _, c := range line {
		sym.Assert(c != 0, "NUL accepted")
	}
	sym.Assert(p.Kind() == line[0], "kind altered")
	raw, ok := p.Message().(*adc.RawMessage)
	sym.Assert(ok, "payload is not raw")
	sym.Assert(sym.EqB(raw.Type[:], line[1:4]), "name altered")
	sym.Reach("accepted")
}

func PacketUDP() {
	cid := adc.CID(sampleHash(40))
	text := []byte(refBase32.EncodeToString(cid[:]))
	bad := true
	switch sym.Choose("damage", 3) {
	case 0:
		i := sym.Choose("at", len(text))
		text[i] = sym.Byte("byte")
		sym.None(string(text[i:i+1]), "\n\x00")
		c := text[i]
		bad = sym.Not(sym.Or(sym.And(c >= 'A', c <= 'Z'), sym.And(c >= '2', c <= '7')))
	case 1:
		text = text[:sym.Choose("cut", len(text))]
	case 2:
		b := sym.Byte("extra")
		sym.Assume(sym.And(sym.And(b != '\n', b != 0), b != ' '))
		text = append(text, b)
	}
	post := []string{"", " ", " x"}[sym.Choose("payload", 3)]
	line := append([]byte("URES "), text...)
	line = append(append(line, post...), '\n')
	p, err := adc.DecodePacketRaw(line)
	if bad {
		sym.Assert(err != nil, "malformed client identifier accepted")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "well-formed client identifier refused")
	u := p.(*adc.UDPPacket)
	sym.Assert(u.ID.Base32()[:38] == string(text[:38]), "client identifier altered")
	sym.Reach("accepted")
}

func PacketTyped() {
	kind := kinds[sym.Choose("kind", len(kinds))]
	from, to := types.SIDFromInt(777), types.SIDFromInt(1234)
	cid := adc.CID(sampleHash(3))
	var sel []adc.FeatureSel
	if kind == 'F' {
		for i := sym.Choose("conditions", 3); i > 0; i-- {
			sel = append(sel, adc.FeatureSel{Fea: adc.FeaSEGA, Sel: sym.Choose("wanted", 2) == 1})
		}
	}
	var m adc.Message
	text := sym.Str("text", 2)
	which := sym.Choose("message", 4)
	if len(text) > 0 && kind == 'F' && which == 0 {
		sym.None(text[:1], "+-")
	}
	sym.None(text, "\x00")
	switch which {
	case 0:
		m = adc.ChatMessage{Text: text, PM: &to}
	case 1:
		m = adc.Status{Sev: adc.Fatal, Code: 7, Msg: text}
	case 2:
		m = adc.SearchRequest{And: []string{text}, Token: "1"}
	case 3:
		m = adc.ZOn{}
	}
	p := newPacket(kind, from, to, cid, sel, m)
	buf := bytes.NewBuffer(nil)
	sym.Assert(p.MarshalPacketADC(buf) == nil, "legal packet refused by the encoder")
	line := buf.Bytes()
	sym.Observe("line", line)
	oneLine(line[:len(line)-1])
	sym.Assert(line[len(line)-1] == '\n', "line is not terminated")
	raw, err := adc.DecodePacketRaw(append([]byte(nil), line...))
	sym.Assert(err == nil, "encoded packet refused by the decoder")
	q := raw
	if sym.Choose("how", 2) == 1 {
		q, err = adc.DecodePacket(line)
		sym.Assert(err == nil, "encoded message refused by the decoder")
		for i := range line {
			line[i] = '?'
		}
	} else {
		var other adc.Password
		sym.Assert(raw.DecodeMessageTo(&other) != nil, "decoded to a message of another type")
		switch in := m.(type) {
		case adc.ChatMessage:
			var out adc.ChatMessage
			sym.Assert(raw.DecodeMessageTo(&out) == nil, "encoded message refused by the decoder")
			sym.Assert(sym.Eq(in.Text, out.Text), "text altered")
		case adc.SearchRequest:
			var out adc.SearchRequest
			sym.Assert(raw.DecodeMessageTo(&out) == nil, "encoded message refused by the decoder")
			sym.Assert(len(out.And) == 1 && sym.Eq(text, out.And[0]), "text altered")
		}
		sym.Assert(raw.DecodeMessage() == nil, "encoded message refused by the decoder")
		sym.Assert(raw.DecodeMessage() == nil, "decoding twice fails")
	}
	checkPacket(q, kind, from, to, cid, sel)
	switch out := q.Message().(type) {
	case adc.ChatMessage:
		sym.Assert(which == 0, "message type")
		sym.Assert(sym.Eq(text, out.Text), "text altered")
		sym.Assert(out.PM != nil && *out.PM == to, "field lost")
	case adc.Status:
		sym.Assert(which == 1, "message type")
		sym.Assert(sym.Eq(text, out.Msg), "text altered")
		sym.Assert(out.Sev == adc.Fatal && out.Code == 7, "status altered")
	case adc.SearchRequest:
		sym.Assert(which == 2, "message type")
		sym.Assert(len(out.And) == 1 && sym.Eq(text, out.And[0]), "text altered")
		sym.Assert(out.Token == "1", "token altered")
	case adc.ZOn:
		sym.Assert(which == 3, "message type")
	default:
		sym.Assert(false, "message type")
	}
	sym.Reach("decoded")
}
