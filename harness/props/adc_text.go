package props

import (
	"bytes"

	"github.com/direct-connect/go-dc/adc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C20", sym.Both, AdcEscape, "texts of 0..6 (thorough 8) arbitrary bytes encoded by the string codec: the standard escaping, no raw space or newline, decodes to the original")
	sym.Register("C20", sym.Both, AdcDecodeStable, "wire texts of 0..6 (thorough 8) arbitrary bytes without space and newline: the decoded text encodes to a command that decodes to the same text")
	sym.Register("C20", sym.Both, AdcTextFields, "texts of 0..3 (thorough 4) arbitrary bytes in every kind of text field (positional, named, list element, path element, raw field, status text, file name): the standard escaping on the wire, decoded to the original")
	sym.Register("C20", sym.Both, LongAdcEscape, "texts of 24..2050 (thorough 9000) plain, space, newline or backslash characters, alternating with another of them, with two arbitrary bytes at the start, middle or end: the standard escaping, decoded to the original; as wire texts: decoded as the protocol says")
}

func AdcEscape() {
	s := sym.Str("text", sym.Bound(6, 8))
	buf := bytes.NewBuffer(nil)
	buf.WriteString("x")
	sym.Assert(adc.String(s).MarshalADC(buf) == nil, "text refused")
	w := buf.Bytes()
	sym.Assert(len(w) > 0 && w[0] == 'x', "earlier data in the buffer")
	w = w[1:]
	sym.Observe("wire", w)
	oneWord(w)
	sym.Assert(sym.EqB(w, refEscape(s)), "not the escaping of the protocol")
	var out adc.String
	sym.Assert(out.UnmarshalADC(w) == nil, "escaped text refused")
	sym.Assert(sym.Eq(string(out), s), "decoded text differs")
	sym.Reach("decoded")
}

func AdcDecodeStable() {
	w := []byte(sym.Str("wire", sym.Bound(6, 8)))
	sym.None(string(w), " \n")
	var a, b adc.String
	sym.Assert(a.UnmarshalADC(w) == nil, "text refused")
	sym.Observe("text", string(a))
	ref := refUnescape(w)
	sym.Assert(sym.Eq(string(a), string(ref)), "escape sequences misread")
	buf := bytes.NewBuffer(nil)
	sym.Assert(a.MarshalADC(buf) == nil, "decoded text refused")
	oneWord(buf.Bytes())
	sym.Assert(b.UnmarshalADC(buf.Bytes()) == nil, "encoded text refused")
	sym.Assert(sym.Eq(string(a), string(b)), "not stable")
	sym.Reach("decoded")
}

// refUnescape reads an escaped text: one escape stands for one character,
// everything else for itself.
func refUnescape(w []byte) (ref []byte) {
	for i := 0; i < len(w); i++ {
		if w[i] == '\\' && i+1 < len(w) {
			c := w[i+1]
			if c == 's' {
				ref = append(ref, ' ')
				i++
				continue
			}
			if c == 'n' {
				ref = append(ref, '\n')
				i++
				continue
			}
			if c == '\\' {
				ref = append(ref, '\\')
				i++
				continue
			}
		}
		ref = append(ref, w[i])
	}
	return ref
}

func LongAdcEscape() {
	n := longSizes[sym.Choose("size", sym.Bound(8, len(longSizes)))]
	const set = "a \n\\s\xc3"
	x, y := set[sym.Choose("first", 6)], set[sym.Choose("second", 6)]
	b := make([]byte, n)
	for i := range b {
		b[i] = x
		if i%2 == 1 {
			b[i] = y
		}
	}
	at := [...]int{0, n / 2, n - 2}[sym.Choose("at", 3)]
	b[at], b[at+1] = sym.Byte("b0"), sym.Byte("b1")
	if sym.Choose("wire text", 2) == 1 {
		for i, c := range b {
			if i == at || i == at+1 {
				sym.None(string(b[i:i+1]), " \n")
			} else if c == ' ' || c == '\n' {
				b[i] = 'n'
			}
		}
		var out adc.String
		sym.Assert(out.UnmarshalADC(b) == nil, "text refused")
		sym.Assert(sym.Eq(string(out), string(refUnescape(b))), "escape sequences misread")
		sym.Reach("read")
		return
	}
	buf := bytes.NewBuffer(nil)
	sym.Assert(adc.String(b).MarshalADC(buf) == nil, "text refused")
	w := buf.Bytes()
	oneWord(w)
	sym.Assert(sym.EqB(w, refEscape(string(b))), "not the escaping of the protocol")
	var out adc.String
	sym.Assert(out.UnmarshalADC(w) == nil, "escaped text refused")
	sym.Assert(sym.Eq(string(out), string(b)), "decoded text differs")
	sym.Reach("trip")
}

func AdcTextFields() {
	s := sym.Str("text", sym.Bound(3, 4))
	esc := refEscape(s)
	var m adc.Message
	var want []byte
	join := func(pre, post string) []byte {
		return append(append([]byte(pre), esc...), post...)
	}
	kind := sym.Choose("kind", 9)
	switch kind {
	case 0:
		m, want = adc.ChatMessage{Text: s}, join("", "")
	case 1:
		m, want = adc.SearchResult{Token: "t", Path: s}, join("TOt FN", "")
		if len(s) == 0 {
			want = []byte("TOt")
		}
	case 2:
		m, want = adc.SearchRequest{And: []string{"a", s, "b"}}, join("ANa AN", " ANb")
	case 3:
		sym.None(s, "/")
		m, want = adc.UserCommand{Path: adc.Path{"a", s, "b"}}, join("a/", "/b")
	case 4:
		m, want = adc.UserInfoMod{{Tag: [2]byte{'D', 'E'}, Value: s}, {Tag: [2]byte{'N', 'I'}, Value: "x"}}, join("DE", " NIx")
	case 5:
		m, want = adc.Status{Sev: adc.Recoverable, Code: 20, Msg: s}, join("120 ", "")
	case 6:
		m, want = adc.GetRequest{Type: s, Path: "p", Bytes: -1}, join("", " p 0 -1")
	case 7:
		m, want = adc.GetResponse{Type: "t", Path: s, Bytes: -1}, join("t ", " 0 -1")
	case 8:
		m, want = adc.RevConnectRequest{Proto: s, Token: "x"}, join("", " x")
	}
	buf := bytes.NewBuffer(nil)
	sym.Assert(adc.Marshal(buf, m) == nil, "legal message refused by the encoder")
	w := buf.Bytes()
	sym.Observe("wire", w)
	sym.Assert(sym.EqB(w, want), "text is not escaped as the protocol requires")
	var got string
	if kind == 4 {
		var out adc.UserInfoMod
		sym.Assert(adc.Unmarshal(w, &out) == nil, "encoded message refused by the decoder")
		sym.Assert(len(out) == 2 && out[1].Value == "x", "neighbour altered")
		got = out[0].Value
	} else {
		switch out := aDecode(m, w).(type) {
		case adc.ChatMessage:
			got = out.Text
		case adc.SearchResult:
			got = out.Path
		case adc.SearchRequest:
			sym.Assert(len(out.And) == 3, "list length")
			got = out.And[1]
		case adc.UserCommand:
			sym.Assert(len(out.Path) == 3, "path length")
			got = out.Path[1]
		case adc.Status:
			got = out.Msg
		case adc.GetRequest:
			got = out.Type
		case adc.GetResponse:
			got = out.Path
		case adc.RevConnectRequest:
			got = out.Proto
		default:
			sym.Assert(false, "message type")
		}
	}
	sym.Assert(sym.Eq(got, s), "decoded text differs")
	sym.Reach("decoded")
}
