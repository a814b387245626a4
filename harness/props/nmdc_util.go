package props

import (
	"bytes"

	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/sym"
)

// nEncode encodes m as a complete command and checks its framing: the command
// name, at most one space and the payload, and exactly one '|' at the very end.
// It returns the payload.
func nEncode(m nmdc.Message) ([]byte, bool) {
	data, err := nmdc.Marshal(nil, m)
	if err != nil {
		return nil, false
	}
	if info, ok := m.(*nmdc.MyINFO); !ok || len(info.Extra) < 2 { // map order
		sym.Observe("wire", data)
	}
	sym.Assert(len(data) > 0, "nothing encoded")
	n := len(data) - 1
	sym.Assert(data[n] == '|', "command is not terminated")
	data = data[:n]
	clean := true
	for i := 0; i < len(data); i++ {
		clean = sym.And(clean, data[i] != '|')
	}
	sym.Assert(clean, "unescaped command terminator inside the command")
	typ := m.Type()
	if ref, ok := nmdcName(m); ok {
		sym.Assert(typ == ref, "not the command name the protocol defines")
	}
	if typ == "" {
		return data, true
	}
	pref := "$" + typ
	sym.Assert(bytes.HasPrefix(data, []byte(pref)), "command name missing")
	data = data[len(pref):]
	if len(data) == 0 {
		return data, true
	}
	sym.Assert(data[0] == ' ', "no space after the command name")
	return data[1:], true
}

// nDecode decodes a payload the way the reader does.
func nDecode(typ string, payload []byte) (nmdc.Message, error) {
	m := nmdc.NewMessage(typ)
	p := append([]byte(nil), payload...)
	err := m.UnmarshalNMDC(nil, p)
	return m, err
}

// nTrip encodes m, decodes the result and returns the decoded message.
func nTrip(m nmdc.Message) nmdc.Message {
	p, ok := nEncode(m)
	sym.Assert(ok, "legal message refused by the encoder")
	out, err := nDecode(m.Type(), p)
	sym.Assert(err == nil, "encoded message refused by the decoder")
	sym.Reach("decoded")
	return out
}

// uText is arbitrary UTF-8 text without NUL of min..max characters; at most
// one of them is a two-byte character.
func uText(name string, min, max int) string {
	n := min + sym.Choose(name+".len", max-min+1)
	wide := -1
	if n > 0 && sym.Choose(name+".wide", 2) == 1 {
		wide = sym.Choose(name+".at", n)
	}
	var b []byte
	for i := 0; i < n; i++ {
		if i == wide {
			b = append(b, sym.ByteRange(name, 0xc2, 0xdf), sym.ByteRange(name, 0x80, 0xbf))
			continue
		}
		b = append(b, sym.ByteRange(name, 1, 0x7f))
	}
	return string(b)
}

// aText is arbitrary 7-bit text without NUL.
func aText(name string, min, max int) string {
	return sym.StringIn(name, min+sym.Choose(name+".len", max-min+1), 1, 0x7f)
}

const nickForbidden = "$\x00\r\n\t"

// nick is an arbitrary legal nick without any of the bytes in not.
func nick(name string, min, max int, not string) string {
	s := uText(name, min, max)
	sym.None(s, nickForbidden+not)
	return s
}

// aNick is like nick, but 7-bit.
func aNick(name string, min, max int, not string) string {
	s := aText(name, min, max)
	sym.None(s, nickForbidden+not)
	return s
}

// rep repeats c.
func rep(c byte, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = c
	}
	return string(b)
}
