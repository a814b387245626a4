package props

import (
	"bytes"
	"unicode/utf8"

	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C08", sym.Both, EscapeRoundtrip, "String: all byte strings of length 0..4 (quick) / 0..6 (thorough); reversible for those that are valid UTF-8")
	sym.Register("C08", sym.Both, EscapeEntities, "String and Name: '&' followed by texts that look like HTML entities (up to 2 arbitrary bytes before and after each of a list of entity texts)")
	sym.Register("C08", sym.Both, NameRoundtrip, "Name: all byte strings of length 0..4 (quick) / 0..6 (thorough)")
	sym.Register("C08", sym.Both, NameDecode, "Name: all wire payloads of length 0..4 (quick) / 0..6 (thorough)")
	sym.Register("C08", sym.Both, EscapeLong, "String and Name: 24..2050 (thorough 9000, nick 50) times the same character ('a', '|', '$', '&', '<', '\\', space) with an arbitrary one at the start, middle or end")
	sym.Register("C08", sym.Both, UnescapeText, "UnescapeBytes, String, Name and the text of a chat message: every sequence of 2 or 3 (bytes; thorough: all 3) of 24 pieces - HTML references, the legacy /%DCNnnn%/ forms, near misses of both, references that denote parts of others, an arbitrary plain byte")
	sym.Register("C08", sym.Both, NameLimit, "Name: 250..258 bytes, two arbitrary bytes")
}

func EscapeRoundtrip() {
	s := sym.Str("s", sym.Bound(4, 6))
	var buf bytes.Buffer
	err := nmdc.String(s).MarshalNMDC(nil, &buf)
	if err != nil {
		sym.Assert(sym.Contains(s, 0), "text without NUL refused")
		return
	}
	e := buf.String()
	sym.Observe("esc", e)
	for i := 0; i < len(e); i++ {
		sym.Assert(sym.And(e[i] != '|', e[i] != '$'), "escaped text contains a reserved byte")
	}
	sym.Assume(utf8.ValidString(s))
	var s2 nmdc.String
	err = s2.UnmarshalNMDC(nil, []byte(e))
	sym.Assert(err == nil, "escaped text not decoded")
	sym.Assert(sym.Eq(string(s2), s), "escape round trip")
	sym.Reach("roundtrip")
}

var entities = []string{"&amp;", "&amp", "&lt;", "&lt", "&gt;", "&#36;", "&#124;", "&#124", "&#x7c;", "&#0;", "&quot;", "&notin;", "&not", "&", "&&", "&#", "&;"}

func EscapeEntities() {
	ent := entities[sym.Choose("entity", len(entities))]
	n := sym.Bound(1, 2)
	s := aText("pre", 0, n) + ent + aText("post", 0, n)
	if sym.Choose("kind", 2) == 0 {
		var buf bytes.Buffer
		err := nmdc.String(s).MarshalNMDC(nil, &buf)
		sym.Assert(err == nil, "text refused")
		var s2 nmdc.String
		err = s2.UnmarshalNMDC(nil, buf.Bytes())
		sym.Assert(err == nil, "escaped text not decoded")
		sym.Assert(sym.Eq(string(s2), s), "entity text altered")
		sym.Reach("text")
		return
	}
	sym.None(s, nickForbidden)
	var buf bytes.Buffer
	err := nmdc.Name(s).MarshalNMDC(nil, &buf)
	sym.Assert(err == nil, "nick refused")
	var s2 nmdc.Name
	err = s2.UnmarshalNMDC(nil, buf.Bytes())
	sym.Assert(err == nil, "escaped nick not decoded")
	sym.Assert(sym.Eq(string(s2), s), "entity nick altered")
	sym.Reach("nick")
}

func forbidden(s string) bool {
	r := false
	for i := 0; i < len(s); i++ {
		r = sym.Or(r, sym.OneOf(s[i], nickForbidden))
	}
	return r
}

func NameRoundtrip() {
	s := sym.Str("s", sym.Bound(4, 6))
	var buf bytes.Buffer
	err := nmdc.Name(s).MarshalNMDC(nil, &buf)
	if err != nil {
		sym.Assert(forbidden(s), "legal nick refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(sym.Not(forbidden(s)), "nick with a forbidden character encoded")
	e := buf.String()
	sym.Observe("esc", e)
	for i := 0; i < len(e); i++ {
		sym.Assert(sym.And(e[i] != '|', e[i] != '$'), "escaped nick contains a reserved byte")
		sym.Assert(sym.And(e[i] != '<', e[i] != '>'), "escaped nick contains a nick delimiter")
	}
	sym.Assume(utf8.ValidString(s))
	var s2 nmdc.Name
	err = s2.UnmarshalNMDC(nil, []byte(e))
	sym.Assert(err == nil, "escaped nick not decoded")
	sym.Assert(sym.Eq(string(s2), s), "nick round trip")
	sym.Reach("roundtrip")
}

func NameDecode() {
	s := sym.Str("s", sym.Bound(4, 6))
	var out nmdc.Name
	err := out.UnmarshalNMDC(nil, []byte(s))
	if err == nil {
		sym.Assert(sym.Not(forbidden(s)), "nick with a forbidden character decoded")
		sym.Assert(utf8.ValidString(string(out)), "nick is not valid text")
		sym.Reach("accepted")
		return
	}
	sym.Assert(string(out) == "", "a refused nick was stored")
}

func NameLimit() {
	n := 250 + sym.Choose("n", 9)
	s := rep('a', n-2) + sym.StringIn("c", 2, 0x20, 0x7e)
	sym.None(s[n-2:], "$")
	if sym.Choose("amp", 2) == 1 {
		s = "&" + s[1:]
	}
	var buf bytes.Buffer
	err := nmdc.Name(s).MarshalNMDC(nil, &buf)
	if err != nil {
		sym.Assert(n > 240, "short nick refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(n <= 256, "over-long nick encoded")
	var s2 nmdc.Name
	err = s2.UnmarshalNMDC(nil, buf.Bytes())
	sym.Assert(err == nil, "encoded nick refused by the decoder")
	sym.Assert(sym.Eq(string(s2), s), "long nick round trip")
	sym.Reach("roundtrip")
}

func EscapeLong() {
	n := longSizes[sym.Choose("size", sym.Bound(8, len(longSizes)))]
	fill := "a|$&<\\ "[sym.Choose("fill", 7)]
	name := sym.Choose("name", 2) == 1
	if name && (n > 50 || fill == '$') {
		return
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = fill
	}
	c := sym.ByteRange("c", 1, 0x7f)
	b[[...]int{0, n / 2, n - 1}[sym.Choose("at", 3)]] = c
	s := string(b)
	var (
		buf  bytes.Buffer
		err  error
		back string
	)
	if name {
		sym.Assume(sym.Not(sym.OneOf(c, nickForbidden)))
		err = nmdc.Name(s).MarshalNMDC(nil, &buf)
	} else {
		err = nmdc.String(s).MarshalNMDC(nil, &buf)
	}
	sym.Assert(err == nil, "legal text refused")
	e := buf.Bytes()
	bad := false
	for _, x := range e {
		bad = sym.Or(bad, sym.Or(x == '|', x == '$'))
	}
	sym.Assert(sym.Not(bad), "escaped text contains a reserved byte")
	if name {
		var x nmdc.Name
		err = x.UnmarshalNMDC(nil, e)
		back = string(x)
	} else {
		var x nmdc.String
		err = x.UnmarshalNMDC(nil, e)
		back = string(x)
	}
	sym.Assert(err == nil, "escaped text not decoded")
	sym.Assert(sym.Eq(back, s), "long text altered")
	sym.Reach("long")
}

// escapeForms are what a peer may send and what it means; a text without
// escapes means itself.
var escapeForms = []struct{ wire, text string }{
	{"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&#36;", "$"}, {"&#124;", "|"},
	{"/%DCN036%/", "$"}, {"/%DCN124%/", "|"}, {"/%DCN096%/", "`"}, {"/%DCN126%/", "~"}, {"/%DCN005%/", "\x05"}, {"/%DCN000%/", "\x00"},
	{"", ""}, // an arbitrary plain byte
	{"/%DCN037%/", "/%DCN037%/"}, {"/%DCN36%/", "/%DCN36%/"}, {"/%dcn036%/", "/%dcn036%/"}, {"/%DCN036%x", "/%DCN036%x"},
	{" %DCN036%/", " %DCN036%/"}, {"#36;", "#36;"}, {"amp;", "amp;"}, {"& ", "& "}, {"&&amp;", "&&"}, {"&amp;lt;", "&lt;"}, {"&#38;#36;", "&#36;"}, {"&#47;%DCN036%/", "/%DCN036%/"},
}

func UnescapeText() {
	what := sym.Choose("as", 4)
	n := sym.Bound(2, 3)
	if what == 0 {
		n = 3
	}
	var wire, text []byte
	for i := 0; i < n; i++ {
		f := escapeForms[sym.Choose("form", len(escapeForms))]
		if f.wire == "" {
			c := sym.Byte("c")
			sym.Assume(sym.And(c < 0x80, sym.Not(sym.OneOf(c, "&/%$|<>\x00\r\n\t#;"))))
			// letters and digits may complete a reference to another one
			sym.Assume(sym.Not(sym.Or(sym.And(c >= '0', c <= '9'), sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z')))))
			wire, text = append(wire, c), append(text, c)
			continue
		}
		wire, text = append(wire, f.wire...), append(text, f.text...)
	}
	var got string
	switch what {
	case 0:
		got = string(nmdc.UnescapeBytes(wire))
	case 1:
		var s nmdc.String
		sym.Assert(s.UnmarshalNMDC(nil, wire) == nil, "text with escapes refused")
		got = string(s)
	case 2:
		var s nmdc.Name
		sym.Assert(s.UnmarshalNMDC(nil, wire) == nil, "nick with escapes refused")
		got = string(s)
	case 3:
		var m nmdc.ChatMessage
		sym.Assert(m.UnmarshalNMDC(nil, append([]byte("<n> "), wire...)) == nil, "chat message with escapes refused")
		got = m.Text
	}
	sym.Assert(sym.Eq(got, string(text)), "escapes not decoded as the protocol defines them, once")
	sym.Reach("unescaped")
}
