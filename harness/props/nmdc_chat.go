package props

import (
	"math"

	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C09", sym.Both, ChatTrip, "nick of 0..2 (thorough 3) and text of 0..3 (thorough 4) arbitrary characters; without a nick the text does not start with '<'")
	sym.Register("C09", sym.Both, PrivateTrip, "three nicks and the text, any two of them of 0..2 (thorough 3) arbitrary characters, the others fixed")
	sym.Register("C09", sym.Both, MCToTrip, "two of recipient, sender (without spaces) and text of 0..2 (thorough 3) arbitrary characters, the other fixed")
	sym.Register("C09", sym.Both, UserCommandTrip, "type and context of 0..999 and around the 32- and 64-bit limits; 0..3 path elements without backslash, one or two of them of 1..2 arbitrary characters, the last not ending in a space; command of 1..2 (thorough 3) characters, present exactly when the path is")
	sym.Register("C09", sym.Both, TopicTrip, "topic of 0..4 (thorough 6) arbitrary characters")
	sym.Register("C09", sym.Both, ChatLong, "nick of 253..257 bytes and text of 0, 1, 4096 or 5000 bytes, two arbitrary bytes in each")
	sym.Register("C09", sym.Both, ChatInjection, "arbitrary bytes (not only legal text) in every field of every chat-family message, 0..3 bytes per field, two fields at a time")
}

func ChatTrip() {
	in := &nmdc.ChatMessage{Name: nick("name", 0, sym.Bound(2, 3), ""), Text: uText("text", 0, sym.Bound(3, 4))}
	if in.Name == "" {
		sym.Assume(len(in.Text) > 0)
		sym.Assume(in.Text[0] != '<')
	}
	out := nTrip(in).(*nmdc.ChatMessage)
	sym.Assert(sym.Eq(out.Name, in.Name), "chat nick")
	sym.Assert(sym.Eq(out.Text, in.Text), "chat text")
	shown := in.Text
	if in.Name != "" {
		shown = "<" + in.Name + "> " + in.Text
	}
	sym.Assert(sym.Eq(out.String(), shown), "shown chat line")
}

func PrivateTrip() {
	in := &nmdc.PrivateMessage{To: "me <1>", From: "a b", Name: "c>d", Text: "> $<x> From: y"}
	n := sym.Bound(2, 3)
	switch sym.Choose("fields", 6) {
	case 0:
		in.To, in.From = nick("to", 0, n, ""), nick("from", 0, 2, "")
	case 1:
		in.To, in.Name = nick("to", 0, n, ""), nick("name", 0, 2, "")
	case 2:
		in.To, in.Text = nick("to", 0, 2, ""), uText("text", 0, n)
	case 3:
		in.From, in.Name = nick("from", 0, n, ""), nick("name", 0, 2, "")
	case 4:
		in.From, in.Text = nick("from", 0, 2, ""), uText("text", 0, n)
	case 5:
		in.Name, in.Text = nick("name", 0, 2, ""), uText("text", 0, n)
	}
	out := nTrip(in).(*nmdc.PrivateMessage)
	sym.Assert(sym.Eq(out.To, in.To), "recipient")
	sym.Assert(sym.Eq(out.From, in.From), "sender")
	sym.Assert(sym.Eq(out.Name, in.Name), "shown nick")
	sym.Assert(sym.Eq(out.Text, in.Text), "text")
}

func MCToTrip() {
	in := &nmdc.MCTo{To: "me 1", From: "a<b", Text: " x $y z"}
	n := sym.Bound(2, 3)
	switch sym.Choose("fields", 3) {
	case 0:
		in.To, in.From = nick("to", 0, n, ""), nick("from", 0, 2, " ")
	case 1:
		in.To, in.Text = nick("to", 0, 2, ""), uText("text", 0, n)
	case 2:
		in.From, in.Text = nick("from", 0, 2, " "), uText("text", 0, n)
	}
	out := nTrip(in).(*nmdc.MCTo)
	sym.Assert(sym.Eq(out.To, in.To), "recipient")
	sym.Assert(sym.Eq(out.From, in.From), "sender")
	sym.Assert(sym.Eq(out.Text, in.Text), "text")
}

func UserCommandTrip() {
	in := &nmdc.UserCommand{}
	pick := func(name string) int {
		switch sym.Choose(name+".kind", 3) {
		case 0:
			return sym.IntRange(name, 0, 999)
		case 1:
			return sym.IntRange(name, math.MaxInt32-1, math.MaxInt32+1)
		}
		return sym.IntRange(name, math.MaxInt64-1, math.MaxInt64)
	}
	if sym.Choose("mode", 2) == 0 {
		in.Typ = nmdc.UCmdType(pick("type"))
		in.Context = nmdc.UCmdContext(pick("context"))
	} else {
		in.Typ, in.Context = nmdc.TypeRaw, nmdc.ContextHub|nmdc.ContextFileList
		n := sym.Choose("path", 4)
		for i := 0; i < n; i++ {
			in.Path = append(in.Path, ".:: & $ |x")
		}
		if n > 0 {
			in.Command = "<%[mynick]> +x y $ \\|"
			f := sym.Choose("focus", 1+n)
			if f == n {
				in.Command = uText("command", 1, sym.Bound(2, 3))
				f = sym.Choose("focus2", n)
			}
			p := aText("path", 1, 2)
			sym.None(p, "\\")
			if f == n-1 {
				sym.Assume(p[len(p)-1] != ' ')
			}
			in.Path[f] = p
		}
	}
	out := nTrip(in).(*nmdc.UserCommand)
	sym.Assert(out.Typ == in.Typ, "type")
	sym.Assert(out.Context == in.Context, "context")
	sym.Assert(len(out.Path) == len(in.Path), "path length")
	for i := range in.Path {
		sym.Assert(sym.Eq(out.Path[i], in.Path[i]), "path element")
	}
	sym.Assert(sym.Eq(out.Command, in.Command), "command")
}

func ChatInjection() {
	a, b := sym.Str("a", 3), sym.Str("b", sym.Bound(2, 3))
	var m nmdc.Message
	switch sym.Choose("msg", 7) {
	case 0:
		m = &nmdc.ChatMessage{Name: a, Text: b}
	case 1:
		m = &nmdc.PrivateMessage{To: a, From: "f", Name: "n", Text: b}
	case 2:
		m = &nmdc.PrivateMessage{To: "t", From: a, Name: b, Text: "x"}
	case 3:
		m = &nmdc.MCTo{To: a, From: b, Text: "x"}
	case 4:
		m = &nmdc.MCTo{To: "t", From: a, Text: b}
	case 5:
		m = &nmdc.UserCommand{Typ: 1, Context: 1, Path: []string{"p", a}, Command: b}
	case 6:
		m = &nmdc.HubTopic{Text: a}
	}
	if p, ok := nEncode(m); ok {
		sym.Reach("encoded")
		sym.Observe("payload", p)
	}
}

func TopicTrip() {
	in := &nmdc.HubTopic{Text: uText("topic", 0, sym.Bound(4, 6))}
	out := nTrip(in).(*nmdc.HubTopic)
	sym.Assert(sym.Eq(out.Text, in.Text), "topic")
}

func ChatLong() {
	n := 253 + sym.Choose("n", 5)
	name := rep('n', n-2) + aNick("name", 2, 2, "")
	text := ""
	switch sym.Choose("text", 4) {
	case 1:
		text = aText("text", 1, 1)
	case 2:
		text = rep('t', 4094) + aText("text", 2, 2)
	case 3:
		text = aText("text", 2, 2) + rep('>', 4998)
	}
	in := &nmdc.ChatMessage{Name: name, Text: text}
	p, ok := nEncode(in)
	if !ok {
		sym.Assert(n > 240, "legal nick refused")
		sym.Reach("refused")
		return
	}
	m, err := nDecode("", p)
	sym.Assert(err == nil, "encoded message refused by the decoder")
	out := m.(*nmdc.ChatMessage)
	sym.Assert(sym.Eq(out.Name, in.Name), "long nick")
	sym.Assert(sym.Eq(out.Text, in.Text), "long text")
	sym.Reach("decoded")
}
