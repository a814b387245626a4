package props

import (
	"strings"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/types"

	"verif/harness/sym"
)

func init() {
	const what = ", holding a piece of protocol syntax (33 of them: field markers, separators, escapes, tags, ...), alone, with an arbitrary byte before or behind it, or twice, or a text of 24..2050 (thorough 9000, nick 250) plain or special characters with an arbitrary one at its start, middle or end: the field and its neighbours survive the way over the wire"
	sym.Register("C09", sym.Both, ChatTokens, "one of the fields of every chat message, private message, operator message, user command and topic"+what)
	sym.Register("C10", sym.Both, InfoTokens, "one of the texts of user information, nick lists and addresses"+what)
	sym.Register("C11", sym.Both, SearchTokens, "one of the texts of searches and search results"+what)
	sym.Register("C12", sym.Both, TransferTokens, "one of the texts of download requests and replies"+what)
	sym.Register("C13", sym.Both, ConnTokens, "one of the texts of every other command"+what)
}

// tokens are pieces of syntax that mean something somewhere in the protocol.
var tokens = [...]string{
	"Ref=", "Pk=", " Pk=", "Pk=a Ref=b", "TTH:", "TTH/", "> ", "<a> ", " $<", "$<b> ", "From: ", "To: ", " From: ", "To: b From: c $<d> e",
	"&amp;", "&#36;", "&#124;", "&", "EXTENDEDPROTOCOL", "$$", "$", "|", " (", ") ", "()", " (1.2.3.4:5)", " 3/4", "<x V:1,M:A,H:1/2/3,S:4>", "V:2", "Hub:b", "F?T?0?1?c", " DB5", " ZL1",
}

// tokenText is a text with a token in it; it has none of the bytes in not.
func tokenText(not string) string {
	t := tokens[sym.Choose("token", len(tokens))]
	if strings.ContainsAny(t, not) {
		sym.Assume(false)
	}
	s := t
	switch sym.Choose("form", 4) {
	case 1:
		c := sym.StringIn("c", 1, 1, 0x7f)
		sym.None(c, not)
		s = c + t
	case 2:
		c := sym.StringIn("c", 1, 1, 0x7f)
		sym.None(c, not)
		s = t + c
	case 3:
		s = t + "x" + t
	}
	return s
}

var longSizes = [...]int{24, 33, 65, 130, 250, 257, 1030, 2050, 4100, 9000}

// longText is a long text with an arbitrary byte; it has none of the bytes in not.
func longText(not string) string {
	nick := strings.Contains(not, "\r")
	n := longSizes[sym.Choose("size", sym.Bound(8, len(longSizes)))]
	fill := "a $&\\<"[sym.Choose("fill", sym.Bound(3, 6))]
	if strings.IndexByte(not, fill) >= 0 || nick && (n > 250 || n > 50 && fill != 'a') {
		sym.Assume(false)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = fill
	}
	c := sym.StringIn("c", 1, 1, 0x7f)
	sym.None(c, not)
	if nick && n == 250 {
		sym.None(c, "&<>$|") // the limit is on the escaped nick
	}
	b[[...]int{0, n / 2, n - 1}[sym.Choose("at", 3)]] = c[0]
	return string(b)
}

type tokenField struct {
	not string // bytes the field cannot have
	mk  func(s string) nmdc.Message
	get func(m nmdc.Message) []string // first the field, then its neighbours
}

func checkTokens(fs []tokenField, legal func(k int, s string) bool) {
	k := sym.Choose("field", len(fs))
	f := fs[k]
	var s string
	if sym.Choose("long", 2) == 1 {
		s = longText(f.not)
	} else {
		s = tokenText(f.not)
	}
	if legal != nil && !legal(k, s) {
		return
	}
	in := f.mk(s)
	if x, ok := in.(*nmdc.Search); ok {
		twoParts(x)
	}
	out := nTrip(in)
	sym.Assert(out.Type() == in.Type(), "another command")
	a, b := f.get(in), f.get(out)
	sym.Assert(sym.Eq(a[0], s), "the field is not the first one")
	sym.Assert(len(a) == len(b), "number of parts")
	for i := range a {
		sym.Assert(sym.Eq(a[i], b[i]), "text altered")
	}
}

const nickNot = "$|\x00\r\n\t"

func ChatTokens() {
	pm := func(m nmdc.Message) []string {
		x := m.(*nmdc.PrivateMessage)
		return []string{x.To, x.From, x.Name, x.Text}
	}
	turn := func(n int, f func(nmdc.Message) []string) func(nmdc.Message) []string {
		return func(m nmdc.Message) []string {
			l := f(m)
			return append(append([]string(nil), l[n:]...), l[:n]...)
		}
	}
	chat := func(m nmdc.Message) []string {
		x := m.(*nmdc.ChatMessage)
		return []string{x.Name, x.Text}
	}
	mcto := func(m nmdc.Message) []string {
		x := m.(*nmdc.MCTo)
		return []string{x.To, x.From, x.Text}
	}
	uc := func(m nmdc.Message) []string {
		x := m.(*nmdc.UserCommand)
		return append([]string{x.Command}, x.Path...)
	}
	fs := []tokenField{
		{nickNot + ">", func(s string) nmdc.Message { return &nmdc.ChatMessage{Name: s, Text: "t"} }, chat},
		{"", func(s string) nmdc.Message { return &nmdc.ChatMessage{Name: "n", Text: s} }, turn(1, chat)},
		{"<", func(s string) nmdc.Message { return &nmdc.ChatMessage{Text: s} }, turn(1, chat)},
		{nickNot, func(s string) nmdc.Message { return &nmdc.PrivateMessage{To: s, From: "f", Name: "n", Text: "t"} }, pm},
		{nickNot, func(s string) nmdc.Message { return &nmdc.PrivateMessage{To: "o", From: s, Name: "n", Text: "t"} }, turn(1, pm)},
		{nickNot, func(s string) nmdc.Message { return &nmdc.PrivateMessage{To: "o", From: "f", Name: s, Text: "t"} }, turn(2, pm)},
		{"", func(s string) nmdc.Message { return &nmdc.PrivateMessage{To: "o", From: "f", Name: "n", Text: s} }, turn(3, pm)},
		{nickNot, func(s string) nmdc.Message { return &nmdc.MCTo{To: s, From: "f", Text: "t"} }, mcto},
		{nickNot + " ", func(s string) nmdc.Message { return &nmdc.MCTo{To: "o", From: s, Text: "t"} }, turn(1, mcto)},
		{"", func(s string) nmdc.Message { return &nmdc.MCTo{To: "o", From: "f", Text: s} }, turn(2, mcto)},
		{"", func(s string) nmdc.Message {
			return &nmdc.UserCommand{Typ: 1, Context: 1, Path: []string{"a", "b"}, Command: s}
		}, uc},
		{"\\", func(s string) nmdc.Message {
			return &nmdc.UserCommand{Typ: 1, Context: 1, Path: []string{"a", s, "b"}, Command: "c"}
		}, turn(2, uc)},
		{"", func(s string) nmdc.Message { return &nmdc.HubTopic{Text: s} }, func(m nmdc.Message) []string { return []string{m.(*nmdc.HubTopic).Text} }},
	}
	// the first separator ends the recipient and the shown nick
	checkTokens(fs, func(k int, s string) bool {
		switch k {
		case 3:
			return strings.Index(s+" From: ", " From: ") == len(s)
		case 5:
			return strings.Index(s+"> ", "> ") == len(s)
		}
		return true
	})
}

func InfoTokens() {
	info := func(n int) func(m nmdc.Message) []string {
		return func(m nmdc.Message) []string {
			x := m.(*nmdc.MyINFO)
			l := []string{x.Name, x.Desc, x.Conn, x.Email, x.Client.Name, x.Client.Version}
			return append(l[n:len(l):len(l)], l[:n]...)
		}
	}
	mk := func() *nmdc.MyINFO {
		return &nmdc.MyINFO{Name: "n", Desc: "d", Client: types.Software{Name: "C", Version: "1"}, Mode: nmdc.UserModeActive, HubsNormal: 1, Slots: 1, Conn: "c", Flag: nmdc.FlagStatusNormal, Email: "e", ShareSize: 7}
	}
	names := func(n int) func(m nmdc.Message) []string {
		return func(m nmdc.Message) []string {
			var l []string
			switch x := m.(type) {
			case *nmdc.OpList:
				l = x.Names
			case *nmdc.BotList:
				l = x.Names
			case *nmdc.UserIP:
				for _, a := range x.List {
					l = append(l, a.Name, a.IP)
				}
			}
			return append(l[n:len(l):len(l)], l[:n]...)
		}
	}
	fs := []tokenField{
		{nickNot + " ", func(s string) nmdc.Message { m := mk(); m.Name = s; return m }, info(0)},
		{"", func(s string) nmdc.Message { m := mk(); m.Desc = s; return m }, info(1)},
		{"", func(s string) nmdc.Message { m := mk(); m.Conn = s; return m }, info(2)},
		{"", func(s string) nmdc.Message { m := mk(); m.Email = s; return m }, info(3)},
		{"$|<>,", func(s string) nmdc.Message { m := mk(); m.Client.Name = s; return m }, info(4)},
		{"$|<>,", func(s string) nmdc.Message { m := mk(); m.Client.Version = s; return m }, info(5)},
		{nickNot, func(s string) nmdc.Message { return &nmdc.OpList{Names: nmdc.Names{"a", s, "b"}} }, names(1)},
		{nickNot, func(s string) nmdc.Message { return &nmdc.BotList{Names: nmdc.Names{"a", s, "b"}} }, names(1)},
		{nickNot, func(s string) nmdc.Message {
			return &nmdc.UserIP{List: []nmdc.UserAddress{{Name: "a", IP: "1.2.3.4"}, {Name: s, IP: "::1"}}}
		}, names(2)},
	}
	checkTokens(fs, func(k int, s string) bool {
		return k != 4 || !strings.Contains(s, " V:") // the tag's own marker
	})
}

func SearchTokens() {
	search := func(n int) func(m nmdc.Message) []string {
		return func(m nmdc.Message) []string {
			x := m.(*nmdc.Search)
			l := []string{x.Pattern, x.User, x.Address}
			return append(l[n:len(l):len(l)], l[:n]...)
		}
	}
	sr := func(n int) func(m nmdc.Message) []string {
		return func(m nmdc.Message) []string {
			x := m.(*nmdc.SR)
			l := append([]string{x.From, x.To, x.HubName, x.HubAddress}, x.Path...)
			return append(l[n:len(l):len(l)], l[:n]...)
		}
	}
	result := func(dir bool) *nmdc.SR {
		m := &nmdc.SR{From: "me", Path: []string{"d", "x"}, Size: 12, FreeSlots: 3, TotalSlots: 10, HubName: "hub", HubAddress: "1.2.3.4:411", To: "you"}
		if dir {
			m.IsDir, m.Size = true, 0
		}
		return m
	}
	fs := []tokenField{
		{"", func(s string) nmdc.Message {
			return &nmdc.Search{Address: "1.2.3.4:5", DataType: nmdc.DataTypeAny, Pattern: s}
		}, search(0)},
		{"", func(s string) nmdc.Message {
			return &nmdc.Search{User: "u", DataType: nmdc.DataTypeAny, Pattern: s}
		}, search(0)},
		{nickNot + " ", func(s string) nmdc.Message {
			return &nmdc.Search{User: s, DataType: nmdc.DataTypeAny, Pattern: "x"}
		}, search(1)},
		{nickNot + " ", func(s string) nmdc.Message { m := result(false); m.From = s; return m }, sr(0)},
		{nickNot, func(s string) nmdc.Message { m := result(false); m.To = s; return m }, sr(1)},
		{"", func(s string) nmdc.Message { m := result(false); m.HubName = s; return m }, sr(2)},
		{"/\\\x05", func(s string) nmdc.Message { m := result(false); m.Path[0] = s; return m }, sr(4)},
		{"/\\\x05", func(s string) nmdc.Message { m := result(false); m.Path[1] = s; return m }, sr(5)},
		{nickNot + " ", func(s string) nmdc.Message { m := result(true); m.From = s; return m }, sr(0)},
		{"", func(s string) nmdc.Message { m := result(true); m.HubName = s; return m }, sr(2)},
		{"/\\\x05", func(s string) nmdc.Message { m := result(true); m.Path[1] = s; return m }, sr(5)},
	}
	checkTokens(fs, func(k int, s string) bool {
		if k == 5 || k == 9 {
			// a hub name starting like a hash is one
			return !strings.HasPrefix(s, "TTH:") && !strings.Contains(s, ")\x05")
		}
		return true
	})
}

func TransferTokens() {
	get := func(n int) func(m nmdc.Message) []string {
		return func(m nmdc.Message) []string {
			x := m.(*nmdc.ADCGet)
			l := []string{string(x.ContentType), string(x.Identifier)}
			return append(l[n:len(l):len(l)], l[:n]...)
		}
	}
	snd := func(n int) func(m nmdc.Message) []string {
		return func(m nmdc.Message) []string {
			x := m.(*nmdc.ADCSnd)
			l := []string{string(x.ContentType), string(x.Identifier)}
			return append(l[n:len(l):len(l)], l[:n]...)
		}
	}
	fs := []tokenField{
		{" ", func(s string) nmdc.Message {
			return &nmdc.ADCGet{ContentType: nmdc.String(s), Identifier: "x", Length: -1}
		}, get(0)},
		{" ", func(s string) nmdc.Message {
			return &nmdc.ADCGet{ContentType: "file", Identifier: nmdc.String(s), Length: -1, Compressed: true}
		}, get(1)},
		{" ", func(s string) nmdc.Message {
			return &nmdc.ADCSnd{ContentType: nmdc.String(s), Identifier: "x", Length: 1}
		}, snd(0)},
		{" ", func(s string) nmdc.Message {
			return &nmdc.ADCSnd{ContentType: "file", Identifier: nmdc.String(s), Length: 1, Compressed: true}
		}, snd(1)},
	}
	checkTokens(fs, nil)
}

func ConnTokens() {
	lock := func(n int) func(m nmdc.Message) []string {
		return func(m nmdc.Message) []string {
			x := m.(*nmdc.Lock)
			l := []string{x.Lock, x.PK, x.Ref}
			return append(l[n:len(l):len(l)], l[:n]...)
		}
	}
	hub := func(n int) func(m nmdc.Message) []string {
		return func(m nmdc.Message) []string {
			x := m.(*nmdc.HubINFO)
			l := []string{x.Name, x.Host, x.Desc, x.Soft.Name, x.Soft.Version, x.Owner, x.State, x.Encoding}
			return append(l[n:len(l):len(l)], l[:n]...)
		}
	}
	mkHub := func() *nmdc.HubINFO {
		return &nmdc.HubINFO{Name: "hub", Host: "a:411", Desc: "d", I1: 1, I2: 20, I3: 300, I4: 4000, Soft: types.Software{Name: "go hub", Version: "1.2"}, Owner: "me", State: "x y", Encoding: "CP1251"}
	}
	rev := func(n int) func(m nmdc.Message) []string {
		return func(m nmdc.Message) []string {
			x := m.(*nmdc.RevConnectToMe)
			l := []string{x.From, x.To}
			return append(l[n:len(l):len(l)], l[:n]...)
		}
	}
	fs := []tokenField{
		{"| ", func(s string) nmdc.Message { return &nmdc.Lock{Lock: s, PK: "p", Ref: "r"} }, lock(0)},
		{"| ", func(s string) nmdc.Message { return &nmdc.Lock{NoExt: true, Lock: s} }, lock(0)},
		{"|", func(s string) nmdc.Message { return &nmdc.Lock{Lock: "l", PK: s} }, lock(1)},
		{"|", func(s string) nmdc.Message { return &nmdc.Lock{Lock: "l", PK: s, Ref: "r"} }, lock(1)},
		{"|", func(s string) nmdc.Message { return &nmdc.Lock{Lock: "l", PK: "p", Ref: s} }, lock(2)},
		{"|", func(s string) nmdc.Message { return &nmdc.Lock{Lock: "l", Ref: s} }, lock(2)},
		{"", func(s string) nmdc.Message { m := mkHub(); m.Name = s; return m }, hub(0)},
		{"|$", func(s string) nmdc.Message { m := mkHub(); m.Host = s; return m }, hub(1)},
		{"", func(s string) nmdc.Message { m := mkHub(); m.Desc = s; return m }, hub(2)},
		{"|$", func(s string) nmdc.Message { m := mkHub(); m.Soft.Name = s; return m }, hub(3)},
		{"", func(s string) nmdc.Message { m := mkHub(); m.Owner = s; return m }, hub(5)},
		{"", func(s string) nmdc.Message { m := mkHub(); m.State = s; return m }, hub(6)},
		{"|$", func(s string) nmdc.Message { m := mkHub(); m.Encoding = s; return m }, hub(7)},
		{nickNot + " ", func(s string) nmdc.Message { return &nmdc.RevConnectToMe{From: s, To: "t"} }, rev(0)},
		{nickNot, func(s string) nmdc.Message { return &nmdc.RevConnectToMe{From: "f", To: s} }, rev(1)},
		{nickNot + " ", func(s string) nmdc.Message { return &nmdc.ConnectToMe{Targ: s, Address: "1.2.3.4:5"} }, func(m nmdc.Message) []string {
			x := m.(*nmdc.ConnectToMe)
			return []string{x.Targ, x.Address}
		}},
		{nickNot, func(s string) nmdc.Message { return &nmdc.Hello{Name: nmdc.Name(s)} }, func(m nmdc.Message) []string { return []string{string(m.(*nmdc.Hello).Name)} }},
		{nickNot, func(s string) nmdc.Message { return &nmdc.Quit{Name: nmdc.Name(s)} }, func(m nmdc.Message) []string { return []string{string(m.(*nmdc.Quit).Name)} }},
		{"", func(s string) nmdc.Message { return &nmdc.HubName{String: nmdc.String(s)} }, func(m nmdc.Message) []string { return []string{string(m.(*nmdc.HubName).String)} }},
		{"", func(s string) nmdc.Message { return &nmdc.MyPass{String: nmdc.String(s)} }, func(m nmdc.Message) []string { return []string{string(m.(*nmdc.MyPass).String)} }},
		{"| ", func(s string) nmdc.Message { return &nmdc.Supports{Ext: []string{"a", s, "b"}} }, func(m nmdc.Message) []string {
			x := m.(*nmdc.Supports).Ext
			return append(append([]string(nil), x[1:]...), x[0])
		}},
		{"|,", func(s string) nmdc.Message { return &nmdc.FailOver{Host: []string{"a", s, "b"}} }, func(m nmdc.Message) []string {
			x := m.(*nmdc.FailOver).Host
			return append(append([]string(nil), x[1:]...), x[0])
		}},
	}
	checkTokens(fs, func(k int, s string) bool {
		switch k {
		case 1:
			return !strings.HasPrefix(s, "EXTENDEDPROTOCOL")
		case 2, 3:
			return !strings.Contains(s, "Ref=")
		}
		return true
	})
}
