package props

import (
	"bytes"
	"errors"
	"io"

	"golang.org/x/text/encoding"
	"golang.org/x/text/transform"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/types"

	"verif/harness/sym"
)

func init() {
	sym.Register("C18", sym.Both, TranscodeWire, "every text field of every command with 1..2 (thorough 3) characters, each arbitrary ASCII or an arbitrary character that the encoding writes as one byte 0x82..0xFF or as a pair whose second byte is 0x40..0xFE")
	sym.Register("C18", sym.Both, EncodingOfLetters, "every text field with 1..2 (thorough 3) arbitrary ASCII characters in an encoding that writes letters as other letters: converted on the wire and back")
	sym.Register("C18", sym.Both, DecoderSwitch, "a decoder set by a hook of any kind on a message that is not delivered, no decoder or another one before: the next message, with any text field with an arbitrary byte 0x82..0xFF, is decoded by it")
	sym.Register("C18", sym.Both, EncoderSwitch, "an encoder set by a hook on a message, dropped or not: the next message, in the same batch or not, with any text field of one character, is encoded by it")
	sym.Register("C18", sym.Both, TranscodeRefused, "every text field with one character that the encoding does not have")
	sym.Register("C18", sym.Both, TranscodeDamaged, "every text field with 0..1 (thorough 2) arbitrary bytes in front of half a character: refused by the decoder, one message and in a stream")
	sym.Register("C18", sym.Both, EncodingFallback, "every text field with one arbitrary byte 0x82..0xFF, every callback decision (none, error, continue, decoder), decoder set before or not, two more commands after it")
	sym.Register("C18", sym.Both, EncodingText, "decoder applied to strings of 0..3 (thorough 0..4) arbitrary bytes, as text and as a nick, and back")
}

var errCharset = errors.New("rune not supported by encoding")

// charset is an encoding with ASCII, the bytes 0x80, 0x82..0xBF as U+0080,
// U+0082..U+00BF, 0xC0..0xFF as U+0410..U+044F, and, as GBK and others have
// them, the pairs of 0x81 and a byte x as U+4E00+x.
type charset struct{ enc bool }

func (charset) Reset() {}

func (c charset) Transform(dst, src []byte, atEOF bool) (int, int, error) {
	nd, ns := 0, 0
	for ns < len(src) {
		b := src[ns]
		if b < 0x80 {
			if nd == len(dst) {
				return nd, ns, transform.ErrShortDst
			}
			dst[nd] = b
			nd++
			ns++
			continue
		}
		if b == lead && !c.enc {
			if ns+2 > len(src) {
				return nd, ns, shortSrc(atEOF)
			}
			if nd+3 > len(dst) {
				return nd, ns, transform.ErrShortDst
			}
			dst[nd], dst[nd+1], dst[nd+2] = doubleOf(src[ns+1])
			nd += 3
			ns += 2
			continue
		}
		if b == 0xe4 && c.enc {
			if nd+2 > len(dst) {
				return nd, ns, transform.ErrShortDst
			}
			if ns+3 > len(src) && !atEOF {
				return nd, ns, transform.ErrShortSrc
			}
			if ns+3 > len(src) || src[ns+1] < 0xb8 || src[ns+1] > 0xbb {
				return nd, ns, errCharset
			}
			dst[nd], dst[nd+1] = lead, src[ns+1]<<6|src[ns+2]&0x3f
			nd += 2
			ns += 3
			continue
		}
		if !c.enc {
			if nd+2 > len(dst) {
				return nd, ns, transform.ErrShortDst
			}
			dst[nd], dst[nd+1] = wideOf(b)
			nd += 2
			ns++
			continue
		}
		if nd == len(dst) {
			return nd, ns, transform.ErrShortDst
		}
		if ns+2 > len(src) && !atEOF {
			return nd, ns, transform.ErrShortSrc
		}
		if ns+2 > len(src) || src[ns+1] < 0x80 || src[ns+1] > 0xbf {
			return nd, ns, errCharset
		}
		r := uint16(b&0x1f)<<6 | uint16(src[ns+1]&0x3f)
		if b == 0xc2 {
			dst[nd] = byte(r)
		} else if (b == 0xd0 || b == 0xd1) && r >= 0x410 && r <= 0x44f {
			dst[nd] = byte(r - 0x350)
		} else {
			return nd, ns, errCharset
		}
		nd++
		ns += 2
	}
	return nd, ns, nil
}

// shortSrc is the error for half a character at the end of the source.
func shortSrc(atEOF bool) error {
	if atEOF {
		return errCharset
	}
	return transform.ErrShortSrc
}

const lead = 0x81

// doubleOf is the UTF-8 form of the pair lead, b.
func doubleOf(b byte) (byte, byte, byte) {
	return 0xe4, 0xb8 | b>>6, 0x80 | b&0x3f
}

// wideOf is the UTF-8 form of the character b (>= 0x80) of the charset.
func wideOf(b byte) (byte, byte) {
	cyr := b >= 0xc0
	r := uint16(b) + 0x350
	return sym.IteB(cyr, 0xc0|byte(r>>6), 0xc2), sym.IteB(cyr, 0x80|byte(r&0x3f), b)
}

func charsetEncoder() *nmdc.TextEncoder { return &encoding.Encoder{Transformer: charset{enc: true}} }
func charsetDecoder() *nmdc.TextDecoder { return &encoding.Decoder{Transformer: charset{}} }

// textField is the text s in UTF-8 and in the charset.
type textField struct{ utf, enc string }

// charsetText is text of n characters that is legal in every field.
func charsetText(n int) textField {
	var u, e []byte
	for i := 0; i < n; i++ {
		kind := sym.Choose("wide", 3)
		if kind == 2 {
			b := sym.ByteRange("d", 0x40, 0xfe)
			x, y, z := doubleOf(b)
			u, e = append(u, x, y, z), append(e, lead, b)
		} else if kind == 1 {
			b := sym.ByteRange("c", 0x82, 0xff)
			x, y := wideOf(b)
			u, e = append(u, x, y), append(e, b)
		} else {
			b := sym.ByteRange("a", 1, 0x7f)
			sym.Assume(sym.Not(sym.OneOf(b, "$\r\n\t\x00&|<>\\? :,/()\x05")))
			u, e = append(u, b), append(e, b)
		}
	}
	return textField{string(u), string(e)}
}

var textFields = []func(s string) nmdc.Message{
	func(s string) nmdc.Message { return &nmdc.ChatMessage{Name: s, Text: "hi"} },
	func(s string) nmdc.Message { return &nmdc.ChatMessage{Name: "a", Text: s} },
	func(s string) nmdc.Message { return &nmdc.PrivateMessage{To: s, From: "b", Name: "c", Text: "d"} },
	func(s string) nmdc.Message { return &nmdc.PrivateMessage{To: "a", From: s, Name: "c", Text: "d"} },
	func(s string) nmdc.Message { return &nmdc.PrivateMessage{To: "a", From: "b", Name: s, Text: "d"} },
	func(s string) nmdc.Message { return &nmdc.PrivateMessage{To: "a", From: "b", Name: "c", Text: s} },
	func(s string) nmdc.Message { return &nmdc.MCTo{To: s, From: "b", Text: "d"} },
	func(s string) nmdc.Message { return &nmdc.MCTo{To: "a", From: s, Text: "d"} },
	func(s string) nmdc.Message { return &nmdc.MCTo{To: "a", From: "b", Text: s} },
	func(s string) nmdc.Message {
		return &nmdc.UserCommand{Typ: 1, Context: 3, Path: []string{"x", s}, Command: "c"}
	},
	func(s string) nmdc.Message {
		return &nmdc.UserCommand{Typ: 1, Context: 3, Path: []string{s, "y"}, Command: "c"}
	},
	func(s string) nmdc.Message {
		return &nmdc.UserCommand{Typ: 1, Context: 3, Path: []string{"x"}, Command: s}
	},
	func(s string) nmdc.Message {
		return &nmdc.ConnectToMe{Targ: s, Address: "1.2.3.4:5", Kind: nmdc.CTMActive}
	},
	func(s string) nmdc.Message {
		return &nmdc.ConnectToMe{Targ: "a", Src: s, Address: "1.2.3.4:5", Kind: nmdc.CTMPassiveReq}
	},
	func(s string) nmdc.Message { return &nmdc.RevConnectToMe{From: s, To: "b"} },
	func(s string) nmdc.Message { return &nmdc.RevConnectToMe{From: "a", To: s} },
	func(s string) nmdc.Message { return &nmdc.Failed{Err: errors.New(s)} },
	func(s string) nmdc.Message { return &nmdc.Error{Err: errors.New(s)} },
	func(s string) nmdc.Message {
		return &nmdc.ADCGet{ContentType: "file", Identifier: nmdc.String(s), Start: 1, Length: 2}
	},
	func(s string) nmdc.Message {
		return &nmdc.ADCSnd{ContentType: "file", Identifier: nmdc.String(s), Start: 1, Length: 2}
	},
	func(s string) nmdc.Message { return &nmdc.Hello{Name: nmdc.Name(s)} },
	func(s string) nmdc.Message { return &nmdc.HubName{String: nmdc.String(s)} },
	func(s string) nmdc.Message { return &nmdc.HubTopic{Text: s} },
	func(s string) nmdc.Message { return &nmdc.Kick{Name: nmdc.Name(s)} },
	func(s string) nmdc.Message { return &nmdc.SetTopic{String: nmdc.String(s)} },
	func(s string) nmdc.Message { return &nmdc.MyPass{String: nmdc.String(s)} },
	func(s string) nmdc.Message { return &nmdc.BotINFO{String: nmdc.String(s)} },
	func(s string) nmdc.Message { return hubInfo(s, "d", "o", "s") },
	func(s string) nmdc.Message { return hubInfo("n", s, "o", "s") },
	func(s string) nmdc.Message { return hubInfo("n", "d", s, "s") },
	func(s string) nmdc.Message { return hubInfo("n", "d", "o", s) },
	func(s string) nmdc.Message {
		return &nmdc.Search{User: s, DataType: nmdc.DataTypeAny, Pattern: "p q"}
	},
	func(s string) nmdc.Message {
		return &nmdc.Search{Address: "1.2.3.4:5", DataType: nmdc.DataTypeAny, Pattern: s}
	},
	func(s string) nmdc.Message { return searchResult(s, "f.x", "hub", "t") },
	func(s string) nmdc.Message { return searchResult("u", s, "hub", "t") },
	func(s string) nmdc.Message { return searchResult("u", "f.x", s, "t") },
	func(s string) nmdc.Message { return searchResult("u", "f.x", "hub", s) },
	func(s string) nmdc.Message {
		return &nmdc.SR{From: "u", Path: []string{"d", s}, IsDir: true, FreeSlots: 1, TotalSlots: 2, HubName: "h", HubAddress: "1.1.1.1"}
	},
	func(s string) nmdc.Message { return &nmdc.TTHSearchPassive{User: s, TTH: sampleTTH} },
	func(s string) nmdc.Message { return myInfo(s, "d", "c", "e") },
	func(s string) nmdc.Message { return myInfo("n", s, "c", "e") },
	func(s string) nmdc.Message { return myInfo("n", "d", s, "e") },
	func(s string) nmdc.Message { return myInfo("n", "d", "c", s) },
	func(s string) nmdc.Message { return &nmdc.OpList{Names: nmdc.Names{"a", s}} },
	func(s string) nmdc.Message { return &nmdc.BotList{Names: nmdc.Names{s, "b"}} },
	func(s string) nmdc.Message {
		return &nmdc.UserIP{List: []nmdc.UserAddress{{Name: s, IP: "1.1.1.1"}, {Name: "b", IP: "2.2.2.2"}}}
	},
}

func hubInfo(name, desc, owner, state string) nmdc.Message {
	return &nmdc.HubINFO{Name: name, Host: "h:1", Desc: desc, I1: 1, Soft: types.Software{Name: "S", Version: "1"}, Owner: owner, State: state, Encoding: "CP1251"}
}

func searchResult(from, file, hub, to string) nmdc.Message {
	return &nmdc.SR{From: from, Path: []string{"d", file}, Size: 5, FreeSlots: 1, TotalSlots: 2, HubName: hub, HubAddress: "1.1.1.1", To: to}
}

func myInfo(name, desc, conn, email string) nmdc.Message {
	return &nmdc.MyINFO{Name: name, Desc: desc, Client: types.Software{Name: "C", Version: "1"}, Mode: nmdc.UserModeActive, HubsNormal: 1, Slots: 1, Conn: conn, Flag: nmdc.FlagStatusNormal, Email: email, ShareSize: 7}
}

// payloadOf cuts the payload out of a complete command.
func payloadOf(m nmdc.Message, wire []byte) []byte {
	n := len(wire) - 1
	if typ := m.Type(); typ != "" {
		if n < len(typ)+2 {
			return nil
		}
		return wire[len(typ)+2 : n]
	}
	return wire[:n]
}

func TranscodeWire() {
	mk := textFields[sym.Choose("field", len(textFields))]
	t := charsetText(1 + sym.Choose("n", sym.Bound(2, 3)))
	m := mk(t.utf)
	// reference: the same message with the text already in the encoding
	// (text is not interpreted when there is no encoder)
	want, err := nmdc.Marshal(nil, mk(t.enc))
	sym.Assert(err == nil, "legal message refused")
	utf, err := nmdc.Marshal(nil, m)
	sym.Assert(err == nil, "legal message refused")
	other := sym.Choose("other", 2) == 1 // another connection with another encoding
	if other {
		got, err := nmdc.Marshal(encoding.Nop.NewEncoder(), m)
		sym.Assert(err == nil && sym.EqB(got, utf), "text converted to another encoding")
	}
	got, err := nmdc.Marshal(charsetEncoder(), m)
	sym.Assert(err == nil, "convertible text refused")
	sym.Assert(sym.EqB(got, want), "text is not converted exactly once")
	out := nmdc.NewMessage(m.Type())
	if other {
		again, err := nmdc.Marshal(encoding.Nop.NewEncoder(), m)
		sym.Assert(err == nil && sym.EqB(again, utf), "text converted to another encoding")
		err = out.UnmarshalNMDC(encoding.Nop.NewDecoder(), append([]byte(nil), payloadOf(m, utf)...))
		sym.Assert(err == nil, "text refused by another encoding")
		back, err := nmdc.Marshal(nil, out)
		sym.Assert(err == nil && sym.EqB(back, utf), "text converted from another encoding")
		out = nmdc.NewMessage(m.Type())
	}
	err = out.UnmarshalNMDC(charsetDecoder(), append([]byte(nil), payloadOf(m, got)...))
	sym.Assert(err == nil, "converted text refused by the decoder")
	back, err := nmdc.Marshal(nil, out)
	sym.Assert(err == nil, "decoded message refused")
	sym.Assert(sym.EqB(back, utf), "text is not converted back exactly once")
	sym.Reach("trip")
}

// swapCase is an encoding that gives ASCII bytes another meaning, as HZ and
// the ISO 2022 family do: it exchanges upper and lower case letters.
type swapCase struct{}

func (swapCase) Reset() {}

func (swapCase) Transform(dst, src []byte, atEOF bool) (int, int, error) {
	n := copy(dst, src)
	for i, b := range dst[:n] {
		dst[i] = swapLetter(b)
	}
	if n < len(src) {
		return n, n, transform.ErrShortDst
	}
	return n, n, nil
}

func swapLetter(b byte) byte {
	u := b & 0xdf
	return sym.IteB(sym.And(u >= 'A', u <= 'Z'), b^0x20, b)
}

func EncodingOfLetters() {
	enc, dec := &encoding.Encoder{Transformer: swapCase{}}, &encoding.Decoder{Transformer: swapCase{}}
	n := 1 + sym.Choose("n", sym.Bound(2, 3))
	t := make([]byte, n)
	for i := range t {
		t[i] = sym.ByteRange("a", '0', 'z')
		sym.Assume(sym.Not(sym.OneOf(t[i], "$&|<>\\? :,/()")))
	}
	m := textFields[sym.Choose("field", len(textFields))](string(t))
	plain, err := nmdc.Marshal(nil, m)
	sym.Assert(err == nil, "legal message refused")
	wire, err := nmdc.Marshal(enc, m)
	sym.Assert(err == nil, "convertible text refused")
	// converting twice is the identity
	out := nmdc.NewMessage(m.Type())
	var back []byte
	if sym.Choose("twice", 2) == 1 {
		err = out.UnmarshalNMDC(nil, append([]byte(nil), payloadOf(m, wire)...))
		sym.Assert(err == nil, "converted text refused by the decoder")
		back, err = nmdc.Marshal(enc, out)
	} else {
		err = out.UnmarshalNMDC(dec, append([]byte(nil), payloadOf(m, wire)...))
		sym.Assert(err == nil, "converted text refused by the decoder")
		back, err = nmdc.Marshal(nil, out)
	}
	sym.Assert(err == nil, "decoded message refused")
	sym.Assert(sym.EqB(back, plain), "letters are not converted")
	sym.Reach("letters")
}

func TranscodeRefused() {
	mk := textFields[sym.Choose("field", len(textFields))]
	// U+0100..U+03FF is not in the charset
	s := "x" + string([]byte{sym.ByteRange("c", 0xc4, 0xcf), sym.ByteRange("d", 0x80, 0xbf)})
	m := mk(s)
	data, err := nmdc.Marshal(charsetEncoder(), m)
	sym.Assert(err != nil && data == nil, "text that cannot be converted was sent")
	var w bytes.Buffer
	nw := nmdc.NewWriter(&w)
	nw.SetEncoder(charsetEncoder())
	sym.Assert(nw.WriteMsg(m) != nil, "text that cannot be converted was sent")
	sym.Assert(nw.WriteMsg(&nmdc.ChatMessage{Text: "ok"}) == nil && nw.Flush() == nil, "writer broken by refused text")
	sym.Assert(w.String() == "ok|", "something of a refused message was sent")
	sym.Reach("refused")
}

func TranscodeDamaged() {
	mk := textFields[sym.Choose("field", len(textFields))]
	t := charsetText(sym.Choose("n", sym.Bound(2, 3)))
	wire, err := nmdc.Marshal(nil, mk(t.enc+string([]byte{lead})))
	sym.Assert(err == nil, "legal message refused")
	i := bytes.LastIndexByte(wire, lead)
	sym.Assume(wire[i+1] != '\\') // otherwise a separator of the path is the other half
	m := mk("x")
	out := nmdc.NewMessage(m.Type())
	err = out.UnmarshalNMDC(charsetDecoder(), append([]byte(nil), payloadOf(m, wire)...))
	sym.Assert(err != nil, "text that cannot be converted was accepted")
	r := nmdc.NewReader(bytes.NewReader(append(wire, "<b> c|"...)))
	r.SetDecoder(charsetDecoder())
	got, err := r.ReadMsg()
	sym.Assert(err != nil && got == nil, "text that cannot be converted was delivered")
	got, err = r.ReadMsg()
	sym.Assert(err == nil, "next message refused")
	chatIs(got, "b", "c")
	sym.Reach("refused")
}

func EncodingFallback() {
	mk := textFields[sym.Choose("field", len(textFields))]
	b := sym.ByteRange("c", 0x82, 0xff)
	enc := "x" + string([]byte{b}) + "y"
	hi, lo := wideOf(b)
	dec := "x" + string([]byte{hi, lo}) + "y"
	wire, err := nmdc.Marshal(nil, mk(enc))
	sym.Assert(err == nil, "legal message refused")
	good, err := nmdc.Marshal(nil, mk(dec))
	sym.Assert(err == nil, "legal message refused")
	repl, err := nmdc.Marshal(nil, mk("x\xef\xbf\xbdy"))
	sym.Assert(err == nil, "legal message refused")

	var data []byte
	data = append(data, wire...)
	data = append(data, "<a> \xe0|<b> c|"...)
	r := nmdc.NewReader(bytes.NewReader(data))
	preset := sym.Choose("preset", 2) == 1
	if preset {
		r.SetDecoder(charsetDecoder())
	}
	stop := errors.New("stop")
	calls := 0
	decision := sym.Choose("decision", 4)
	if decision > 0 {
		r.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) {
			calls++
			sym.Assert(bytes.IndexByte(text, b) >= 0 || bytes.IndexByte(text, 0xe0) >= 0, "callback got another text")
			switch decision {
			case 1:
				return nil, stop
			case 2:
				return nil, nil
			}
			return charsetDecoder(), nil
		}
	}
	if sym.Choose("ignore", 2) == 1 {
		// the first message is dropped after it was decoded
		first := true
		r.OnMessage(func(m nmdc.Message) (bool, error) {
			if first {
				first = false
				return false, nil
			}
			return true, nil
		})
		if preset || decision >= 2 {
			m, err := r.ReadMsg()
			sym.Assert(err == nil, "second message refused")
			chatIs(m, "a", map[bool]string{true: "\u0430", false: "\xef\xbf\xbd"}[preset || decision == 3])
			m, err = r.ReadMsg()
			sym.Assert(err == nil, "third message refused")
			chatIs(m, "b", "c")
			sym.Assert(calls == map[bool]int{true: 0, false: 4 - decision}[preset], "callback count")
			sym.Reach("dropped")
		}
		return
	}
	m, err := r.ReadMsg()
	switch {
	case preset || decision == 3:
		sym.Assert(err == nil, "text in the configured encoding refused")
		back, err := nmdc.Marshal(nil, m)
		sym.Assert(err == nil && sym.EqB(back, good), "text differs")
		sym.Assert(preset == (calls == 0), "callback called for valid text")
		n := calls
		m, err = r.ReadMsg()
		sym.Assert(err == nil, "later text refused")
		chatIs(m, "a", "\u0430")
		sym.Assert(calls == n, "callback called again")
		sym.Assert(r.Decoder() != nil, "decoder forgotten")
		sym.Reach("decoder")
	case decision == 2:
		sym.Assert(err == nil, "text refused although asked to continue")
		back, err := nmdc.Marshal(nil, m)
		sym.Assert(err == nil && sym.EqB(back, repl), "text differs")
		sym.Assert(calls == 1, "callback not called")
		m, err = r.ReadMsg()
		sym.Assert(err == nil, "later text refused")
		chatIs(m, "a", "\xef\xbf\xbd")
		sym.Assert(calls == 2, "callback not called for later text")
		sym.Assert(r.Decoder() == nil, "decoder invented")
		sym.Reach("continue")
	default:
		sym.Assert(err != nil && m == nil, "invalid text accepted")
		sym.Assert(calls == decision, "callback count")
		if decision == 1 {
			sym.Assert(err == stop, "callback's error lost")
		}
		m, err = r.ReadMsg()
		sym.Assert(err != nil && m == nil, "invalid text accepted")
		sym.Assert(calls == 2*decision, "callback count")
		sym.Reach("refused")
	}
	m, err = r.ReadMsg()
	sym.Assert(err == nil, "valid text refused")
	chatIs(m, "b", "c")
	_, err = r.ReadMsg()
	sym.Assert(err == io.EOF, "end of stream")
}

func chatIs(m nmdc.Message, name, text string) {
	c, ok := m.(*nmdc.ChatMessage)
	sym.Assert(ok && c.Name == name && c.Text == text, "chat message differs")
}

// DecoderSwitch: a hook sets the decoder on a message that is not delivered.
func DecoderSwitch() {
	mk := textFields[sym.Choose("field", len(textFields))]
	b := sym.ByteRange("c", 0x82, 0xff)
	hi, lo := wideOf(b)
	wire, err := nmdc.Marshal(nil, mk("x"+string([]byte{b})+"y"))
	sym.Assert(err == nil, "legal message refused")
	good, err := nmdc.Marshal(nil, mk("x"+string([]byte{hi, lo})+"y"))
	sym.Assert(err == nil, "legal message refused")
	kind := sym.Choose("hook", 5)
	data := []byte([...]string{"<a> z|", "<a> z|", "<a> z|", "|", "<|"}[kind])
	n := len(data)
	if sym.Choose("command", 2) == 1 && kind < 3 {
		data = []byte("$Hello z|")
		n = len(data)
	}
	data = append(data, wire...)
	r := nmdc.NewReader(bytes.NewReader(data[:n+len(wire)]))
	if sym.Choose("preset", 2) == 1 {
		r.SetDecoder(encoding.Nop.NewDecoder())
	}
	first := true
	hook := func() bool {
		if first {
			first = false
			r.SetDecoder(charsetDecoder())
			return false
		}
		return true
	}
	switch kind {
	case 0:
		r.OnMessage(func(nmdc.Message) (bool, error) { return hook(), nil })
	case 1:
		r.OnRawMessage(func(cmd, args []byte) (bool, error) { return hook(), nil })
	case 2:
		r.OnLine(func([]byte) (bool, error) { return hook(), nil })
	case 3:
		r.OnKeepAlive = func() error { hook(); return nil }
	case 4:
		r.OnUnmarshalError = func(text []byte, err error) (bool, error) { return hook(), err }
	}
	m, err := r.ReadMsg()
	sym.Assert(err == nil, "text in the new encoding refused")
	back, err := nmdc.Marshal(nil, m)
	sym.Assert(err == nil && sym.EqB(back, good), "text not decoded by the new decoder")
	sym.Reach("switched")
}

// EncoderSwitch: a hook sets the encoder on the first message of a batch.
func EncoderSwitch() {
	mk := textFields[sym.Choose("field", len(textFields))]
	t := charsetText(1)
	want, err := nmdc.Marshal(nil, mk(t.enc))
	sym.Assert(err == nil, "legal message refused")
	var w bytes.Buffer
	nw := nmdc.NewWriter(&w)
	if sym.Choose("preset", 2) == 1 {
		nw.SetEncoder(encoding.Nop.NewEncoder())
	}
	keep := sym.Choose("keep", 2) == 1
	first := true
	nw.OnMessage(func(nmdc.Message) (bool, error) {
		if first {
			first = false
			nw.SetEncoder(charsetEncoder())
			return keep, nil
		}
		return true, nil
	})
	msgs := []nmdc.Message{&nmdc.ChatMessage{Text: "z"}, mk(t.utf)}
	if sym.Choose("batch", 2) == 1 {
		err = nw.WriteMsg(msgs...)
	} else {
		err = nw.WriteMsg(msgs[0])
		sym.Assert(err == nil, "legal message refused")
		err = nw.WriteMsg(msgs[1])
	}
	sym.Assert(err == nil, "convertible text refused")
	sym.Assert(nw.Flush() == nil, "flush failed")
	got := w.Bytes()
	if keep {
		sym.Assert(len(got) >= 2 && string(got[:2]) == "z|", "first message")
		got = got[2:]
	}
	sym.Assert(sym.EqB(got, want), "text not converted to the new encoding")
	sym.Reach("switched")
}

func EncodingText() {
	p := sym.Bytes("p", sym.Choose("n", sym.Bound(4, 5)))
	for _, b := range p {
		sym.Assume(sym.Not(sym.OneOf(b, "&\x00$\r\n\t\x81")))
	}
	orig := append([]byte(nil), p...)
	var want []byte
	for _, b := range orig {
		if b < 0x80 {
			want = append(want, b)
		} else {
			x, y := wideOf(b)
			want = append(want, x, y)
		}
	}
	var (
		got string
		buf bytes.Buffer
		err error
	)
	if sym.Choose("name", 2) == 1 {
		var s nmdc.Name
		err = s.UnmarshalNMDC(charsetDecoder(), p)
		got = string(s)
		sym.Assert(err == nil, "text refused")
		sym.Assert(s.MarshalNMDC(charsetEncoder(), &buf) == nil, "decoded text refused")
	} else {
		var s nmdc.String
		err = s.UnmarshalNMDC(charsetDecoder(), p)
		got = string(s)
		sym.Assert(err == nil, "text refused")
		sym.Assert(s.MarshalNMDC(charsetEncoder(), &buf) == nil, "decoded text refused")
	}
	sym.Assert(sym.Eq(got, string(want)), "text differs")
	sym.Assert(sym.EqB(nmdc.UnescapeBytes(buf.Bytes()), orig), "text differs on the way back")
	sym.Reach("text")
}
