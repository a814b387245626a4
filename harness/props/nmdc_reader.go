package props

import (
	"bytes"
	"errors"
	"io"

	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C16", sym.Both, StreamClassify, "streams of 0..5 (thorough 0..6) arbitrary bytes, read to the end")
	sym.Register("C16", sym.Both, StreamHooks, "up to 3 (thorough 4) commands from a pool of chat, known, unknown, malformed and empty ones; up to 2 raw hooks, a message hook and a decode-error hook with arbitrary verdicts per call")
	sym.Register("C16", sym.Both, StreamTyped, "a keep-alive and up to one dropped command in front of one from the pool, read as every kind of message or as any of two kinds (or raw), then an ordinary read")
	sym.Register("C16", sym.Both, StreamNames, "name limits 1..4 with names of 0..6 arbitrary bytes, default limit with names of 30..34 bytes one of which is arbitrary, with and without arguments")
	sym.Register("C16", sym.Both, StreamReuse, "two commands of the same name out of 22 with different optional parts, an arbitrary byte at one of three (thorough five) places of each, read into the same message after the first one was delivered, dropped by a hook or malformed and ignored: the second one is what its bytes say")
	sym.Register("C16", sym.Both, ChatSplit, "chat payloads of '<' followed by 0..5 (thorough 0..6) arbitrary bytes without entities, and longer ones with '>' in various places")
}

// sameMsg compares two messages by kind and encoding.
func sameMsg(a, b nmdc.Message) bool {
	if a == nil || b == nil || a.Type() != b.Type() {
		return false
	}
	x, err1 := nmdc.Marshal(nil, a)
	y, err2 := nmdc.Marshal(nil, b)
	if err1 != nil || err2 != nil {
		return err1 != nil && err2 != nil
	}
	return sym.EqB(x, y)
}

// refCommand decodes one command (without its terminator) by the protocol's
// rules. A nil message and a nil error mean a keep-alive.
func refCommand(line []byte, maxName int) (nmdc.Message, []byte, []byte, error) {
	bad := errors.New("malformed command")
	if bytes.IndexByte(line, 0) >= 0 {
		return nil, nil, nil, bad
	}
	if len(line) == 0 {
		return nil, nil, nil, nil
	}
	if line[0] != '$' {
		m := &nmdc.ChatMessage{}
		return m, nil, line, m.UnmarshalNMDC(nil, append([]byte(nil), line...))
	}
	name := line[1:]
	var args []byte
	for i := range name {
		if name[i] == ' ' {
			name, args = name[:i], name[i+1:]
			break
		}
	}
	if len(name) == 0 || len(name) > maxName {
		return nil, name, args, bad
	}
	for _, c := range name {
		if !nameChar(c) {
			return nil, name, args, bad
		}
	}
	m := nmdc.NewMessage(string(name))
	return m, name, args, m.UnmarshalNMDC(nil, append([]byte(nil), args...))
}

// nameChar tells the characters a command name is made of.
func nameChar(c byte) bool {
	up, low := sym.And(c >= 'A', c <= 'Z'), sym.And(c >= 'a', c <= 'z')
	return sym.Or(sym.Or(up, low), sym.Or(sym.And(c >= '0', c <= '9'), sym.OneOf(c, "/-_.:")))
}

func StreamClassify() {
	data := []byte(sym.Str("stream", sym.Bound(5, 6)))
	orig := append([]byte(nil), data...)
	r := nmdc.NewReader(bytes.NewReader(data))
	var (
		alive            int
		seenCmd, seenArg []byte
	)
	r.OnKeepAlive = func() error { alive++; return nil }
	r.OnRawMessage(func(cmd, args []byte) (bool, error) {
		sym.Assert(seenCmd == nil && seenArg == nil, "two commands for one read")
		seenCmd, seenArg = append([]byte{}, cmd...), append([]byte{}, args...)
		sym.Assert((cmd == nil) == (len(orig) > 0 && chatAt(orig, cmd, args)), "chat and command mixed up")
		return true, nil
	})
	want := 0
	start := 0
	for i := 0; i < len(orig); i++ {
		if orig[i] != '|' {
			continue
		}
		line := orig[start:i]
		start = i + 1
		ref, name, args, rerr := refCommand(line, 32)
		if ref == nil && rerr == nil {
			want++
			continue
		}
		m, err := r.ReadMsg()
		sym.Assert(alive == want, "keep-alives miscounted")
		if rerr != nil {
			sym.Assert(err != nil, "malformed command accepted")
			sym.Reach("malformed")
			return
		}
		sym.Assert(err == nil, "well-formed command refused")
		sym.Assert(sameMsg(m, ref), "command differs from the stream")
		if raw, ok := m.(*nmdc.RawMessage); ok {
			sym.Assert(sym.EqB(raw.Data, args), "payload of an unknown command")
			sym.Reach("raw")
		}
		sym.Assert(sym.And(sym.EqB(seenCmd, name), sym.EqB(seenArg, args)), "raw hook saw something else")
		seenCmd, seenArg = nil, nil
		sym.Reach("message")
	}
	m, err := r.ReadMsg()
	sym.Assert(m == nil && err != nil, "a command without its terminator")
	if start == len(orig) {
		sym.Assert(err == io.EOF, "end of stream")
	}
	sym.Assert(alive == want, "keep-alives miscounted")
}

// chatAt is only used to tell that a nil command name comes with chat text.
func chatAt(orig, cmd, args []byte) bool {
	return cmd == nil && (len(args) == 0 || args[0] != '$')
}

type poolCmd struct {
	line string
	bad  bool
}

var pool = []poolCmd{
	{line: "<a> hello"},
	{line: "$Unknown x y"},
	{line: "$Hello joe"},
	{line: "$HubName topic"},
	{line: ""},
	{line: "$SR bad", bad: true},
	{line: "$Unk2"},
}

func StreamHooks() {
	n := 1 + sym.Choose("commands", sym.Bound(3, 4))
	items := make([]poolCmd, n)
	var data []byte
	for i := range items {
		items[i] = pool[sym.Choose("item", len(pool)-1)]
		data = append(data, items[i].line...)
		data = append(data, '|')
	}
	r := nmdc.NewReader(bytes.NewReader(data))
	stop := errors.New("stop")
	cur := 0 // command being processed
	skipEmpty := func() {
		for cur < n && items[cur].line == "" {
			cur++
		}
	}
	alive := 0
	aliveErr := sym.Choose("aliveErr", 2) == 1
	r.OnKeepAlive = func() error {
		alive++
		if aliveErr {
			return stop
		}
		return nil
	}
	const (
		none = iota
		dropped
		failed
	)
	state := none
	hooks := sym.Choose("rawHooks", 3)
	stage := 0
	for h := 0; h < hooks; h++ {
		h := h
		r.OnRawMessage(func(cmd, args []byte) (bool, error) {
			if stage == 0 {
				skipEmpty()
			}
			sym.Assert(state == none, "hook called after the verdict")
			sym.Assert(stage == h, "hooks out of order")
			sym.Assert(cur < n, "more commands than sent")
			ref, name, rargs, _ := refCommand([]byte(items[cur].line), 32)
			_ = ref
			sym.Assert(bytes.Equal(cmd, name) && (cmd == nil) == (name == nil), "hook: name")
			sym.Assert(bytes.Equal(args, rargs), "hook: arguments")
			stage++
			switch sym.Choose("raw", 2+h) {
			case 1:
				cur, stage = cur+1, 0
				return false, nil
			case 2:
				state = failed
				return true, stop
			}
			return true, nil
		})
	}
	// the commands below run after every raw hook has passed
	if sym.Choose("errHook", 2) == 1 {
		r.OnUnmarshalError = func(line []byte, err error) (bool, error) {
			skipEmpty()
			sym.Assert(stage == hooks && items[cur].bad, "decode error for a good command")
			sym.Assert(string(line) == items[cur].line, "decode error for another line")
			if sym.Choose("skip", 2) == 1 {
				cur, stage = cur+1, 0
				return false, nil
			}
			state = failed
			return true, stop
		}
	}
	msgHook := sym.Choose("msgHook", 2) == 1
	if msgHook {
		r.OnMessage(func(m nmdc.Message) (bool, error) {
			skipEmpty()
			sym.Assert(state == none && stage == hooks, "message hook before the raw hooks")
			ref, _, _, err := refCommand([]byte(items[cur].line), 32)
			sym.Assert(err == nil && sameMsg(m, ref), "message hook saw something else")
			stage++
			switch sym.Choose("msg", 3) {
			case 1:
				cur, stage = cur+1, 0
				return false, nil
			case 2:
				state = failed
				return true, stop
			}
			return true, nil
		})
	}
	for {
		m, err := r.ReadMsg()
		if aliveErr && err == stop && state == none {
			skipEmpty()
			sym.Assert(alive > 0, "keep-alive failure invented")
			sym.Reach("keepalive stop")
			return
		}
		if state == failed {
			sym.Assert(err == stop, "hook failure lost")
			sym.Reach("stopped")
			return
		}
		skipEmpty()
		if cur == n {
			sym.Assert(err == io.EOF && m == nil, "end of stream")
			sym.Reach("end")
			break
		}
		if items[cur].bad {
			sym.Assert(err != nil && err != stop, "malformed command accepted")
			sym.Assert(stage == hooks && r.OnUnmarshalError == nil, "malformed command returned")
			return
		}
		sym.Assert(err == nil, "command refused")
		ref, _, _, _ := refCommand([]byte(items[cur].line), 32)
		sym.Assert(sameMsg(m, ref), "command differs")
		if msgHook {
			sym.Assert(stage == hooks+1, "message hook not called")
		} else {
			sym.Assert(stage == hooks, "raw hook not called")
		}
		cur, stage = cur+1, 0
		sym.Reach("delivered")
	}
	total := 0
	for _, it := range items {
		if it.line == "" {
			total++
		}
	}
	sym.Assert(alive == total, "keep-alives miscounted")
}

func newKind(i int) nmdc.Message {
	switch i {
	case 0:
		return &nmdc.ChatMessage{}
	case 1:
		return &nmdc.Hello{}
	case 2:
		return &nmdc.HubName{}
	case 3:
		return &nmdc.SR{}
	case 4:
		return &nmdc.RawMessage{Typ: "Unknown"}
	}
	return &nmdc.RawMessage{}
}

func kindOf(m nmdc.Message) string {
	return m.Type()
}

func StreamTyped() {
	var data []byte
	dropFirst := sym.Choose("drop", 3)
	if dropFirst > 0 {
		data = append(data, []string{"$Hello other|", "<b> chat|"}[dropFirst-1]...)
	}
	if sym.Choose("keepalive", 2) == 1 {
		data = append(data, '|')
	}
	items := append(pool[:len(pool):len(pool)],
		// looks like another command
		poolCmd{line: "<Hello> hi"}, poolCmd{line: "Hello joe"}, poolCmd{line: "$HelloX joe"}, poolCmd{line: "$hello joe"}, poolCmd{line: "<a> $Hello joe"}, poolCmd{line: "$Hello <a> b"})
	it := items[sym.Choose("item", len(items))]
	if it.line == "" {
		return
	}
	data = append(data, it.line...)
	data = append(data, "|<z> last|"...)
	r := nmdc.NewReader(bytes.NewReader(data))
	if dropFirst > 0 {
		first := true
		drop := func() bool {
			ok := !first
			first = false
			return ok
		}
		if sym.Choose("where", 2) == 0 {
			r.OnRawMessage(func(cmd, args []byte) (bool, error) { return drop(), nil })
		} else {
			r.OnMessage(func(m nmdc.Message) (bool, error) { return drop(), nil })
			// a typed read refuses the other kind before the hook sees it
			sym.Assume(false)
		}
	}
	ref, _, _, rerr := refCommand([]byte(it.line), 32)
	chat := it.line[0] != '$'
	var (
		got, want nmdc.Message
		err       error
	)
	k1 := newKind(sym.Choose("kind", 5))
	exp := kindOf(k1)
	if sym.Choose("any", 2) == 0 {
		err = r.ReadMsgTo(k1)
		if kindOf(k1) == ref.Type() {
			want = k1
		}
		got = k1
	} else {
		if k1.Type() == "Unknown" {
			return // a raw message among several takes any command
		}
		k2 := newKind(5 * sym.Choose("raw", 2))
		if sym.Choose("other", 2) == 1 {
			k2 = newKind(sym.Choose("kind2", 4))
		}
		raw2, isRaw2 := k2.(*nmdc.RawMessage)
		isRaw2 = isRaw2 && raw2.Typ == ""
		got, err = r.ReadMsgToAny(k1, k2)
		_, chat1 := k1.(*nmdc.ChatMessage)
		_, chat2 := k2.(*nmdc.ChatMessage)
		switch {
		case chat && chat1, !chat && exp == ref.Type():
			want = k1
		case chat && chat2, !chat && kindOf(k2) == ref.Type() && !chat2, isRaw2:
			want = k2
		}
		if want != nil && rerr == nil {
			sym.Assert(got == want, "typed read filled another message")
		}
		if want != nil && isRaw2 && want == k2 {
			// a raw message takes any command as it is
			sym.Assert(err == nil, "raw read refused a command")
			line := it.line
			if !chat {
				line = "$" + raw2.Typ
				if len(raw2.Data) != 0 {
					line += " " + string(raw2.Data)
				}
			} else {
				sym.Assert(raw2.Typ == "", "raw chat has a name")
				line = string(raw2.Data)
			}
			sym.Assert(line == it.line, "raw read changed the command")
			sym.Reach("raw")
			want = nil
			ref = nil
		}
	}
	if ref != nil {
		if want == nil {
			e, ok := err.(*nmdc.ErrUnexpectedCommand)
			sym.Assert(ok, "command of another kind accepted")
			sym.Assert(e.Expected == exp, "wrong expectation reported")
			_, name, args, _ := refCommand([]byte(it.line), 32)
			sym.Assert(e.Received.Typ == string(name) && bytes.Equal(e.Received.Data, args), "wrong command reported")
			sym.Reach("unexpected")
		} else if rerr != nil {
			sym.Assert(err != nil, "malformed command accepted")
		} else {
			sym.Assert(err == nil, "requested command refused")
			sym.Assert(sameMsg(got, ref), "typed read differs")
			sym.Reach("typed")
		}
	}
	m, err := r.ReadMsg()
	sym.Assert(err == nil, "next command lost")
	c, ok := m.(*nmdc.ChatMessage)
	sym.Assert(ok && c.Name == "z" && c.Text == "last", "next command damaged")
}

func StreamNames() {
	limit := 32
	var name []byte
	r := new(nmdc.Reader)
	if sym.Choose("custom", 2) == 1 {
		limit = 1 + sym.Choose("limit", 4)
		name = []byte(sym.Str("name", 6))
	} else {
		n := 30 + sym.Choose("n", 5)
		name = []byte(rep('N', n))
		name[sym.Choose("at", n)] = sym.Byte("x")
	}
	for _, c := range name {
		sym.Assume(sym.Not(sym.OneOf(c, "| \x00")))
	}
	line := append([]byte("$"), name...)
	args := ""
	if sym.Choose("args", 2) == 1 {
		args = "x y"
		line = append(line, " x y"...)
	}
	line = append(line, '|')
	r = nmdc.NewReader(bytes.NewReader(line))
	if limit != 32 {
		r.SetMaxCmdName(limit)
	}
	m, err := r.ReadMsg()
	ascii := true
	for _, c := range name {
		ascii = sym.And(ascii, nameChar(c))
	}
	if len(name) == 0 || len(name) > limit {
		sym.Assert(err != nil, "malformed name accepted")
		sym.Reach("length")
		return
	}
	if !ascii {
		sym.Assert(err != nil, "non-ASCII name accepted")
		sym.Reach("ascii")
		return
	}
	if nmdc.IsRegistered(string(name)) {
		return // StreamClassify
	}
	sym.Assert(err == nil, "legal name refused")
	raw, ok := m.(*nmdc.RawMessage)
	sym.Assert(ok, "unknown command is not raw")
	sym.Assert(sym.And(sym.Eq(raw.Typ, string(name)), string(raw.Data) == args), "unknown command differs")
	sym.Reach("raw")
}

func ChatSplit() {
	var p string
	if sym.Choose("long", 2) == 0 {
		p = "<" + sym.Str("payload", sym.Bound(5, 6))
	} else {
		p = "<" + []string{"abc", "a>b", ">x", "a b"}[sym.Choose("a", 4)] + sym.Str("x", 2) + []string{"de", "d>", " f>", ""}[sym.Choose("b", 4)] + sym.Str("y", 2)
	}
	sym.Assume(sym.Not(sym.Contains(p, '&')))
	sym.Assume(sym.Not(sym.Contains(p, 0)))
	sym.Assume(sym.Not(sym.Contains(p, '|')))
	m := &nmdc.ChatMessage{}
	if err := m.UnmarshalNMDC(nil, []byte(p)); err != nil {
		return
	}
	// nothing is lost: the payload is the nick in brackets, at most one
	// white space character and the text
	pref := "<" + m.Name + ">"
	sym.Assert(len(p) >= len(pref)+len(m.Text), "text invented")
	sym.Assert(sym.Eq(p[:len(pref)], pref), "nick differs from the payload")
	sep := p[len(pref) : len(p)-len(m.Text)]
	sym.Assert(sym.Eq(p[len(p)-len(m.Text):], m.Text), "text differs from the payload")
	sym.Assert(len(sep) <= 3, "part of the payload lost")
	switch len(sep) {
	case 1:
		sym.Assert(sym.Or(sep[0] == ' ', sym.And(sep[0] >= 9, sep[0] <= 13)), "character lost")
	case 2:
		sym.Assert(sep[0] == 0xc2, "characters lost")
	case 3:
		sym.Assert(sep[0] >= 0xe1, "characters lost")
	}
	sym.Reach("split")
}

// reuseSamples are groups of payloads of one command with different optional
// parts.
var reuseSamples = []struct {
	typ  string
	data []string
}{
	{"", []string{"<nick> hello", "plain text"}},
	{"To:", []string{"a From: b $<c> text", "a From: b $<c> "}},
	{"UserCommand", []string{"1 3 # a\\b c $x", "255 1"}},
	{"MyINFO", []string{
		"$ALL joe RU<Ap V:0.4,M:P,H:27/1/3,S:92,L:5>$ $LAN(T3)K$e@e.c$1234$",
		"$ALL jim P$ $$$$", "$ALL jim <x>$A$$$$", "$ALL jim <x M:A,H:3>$A$$$$"}},
	{"Search", []string{
		"192.168.1.5:412 T?T?500000?1?Gen$2005",
		"Hub:Some F?T?0?9?TTH:TO32WPD6AQE7VA7654HEAM5GKFQGIL7F2BEKFNA",
		"Hub:Some F?T??1?"}},
	{"SR", []string{
		"U d\\k.iso\x0518 3/3\x05TTH:BNQGWMXKUIAFAU3TV32I5U6SKNYMQBBNH4FELNQ (1.1.1.1:411)\x05V",
		"W pics 0/4\x05Hub (1.1.1.1)",
		"W f.txt\x055 1/4\x05 ()"}},
	{"ADCGET", []string{"file TTH/AB 123523 65 ZL1 DB15", "list x 0 -1"}},
	{"ADCSND", []string{"tthl TTH/AB 6342 7323 ZL1", "file x 0 1"}},
	{"ConnectToMe", []string{"john 192.168.1.2:412NS peter", "joe 1.2.3.4:412", "joe 1.2.3.4:412R"}},
	{"Lock", []string{"EXTENDEDPROTOCOLABC Pk=DCPP0.777Ref=dchub://e.org", "abc"}},
	{"Supports", []string{"NoHello TTHS", ""}},
	{"HubINFO", []string{"hub$dc.e.c:80$desc$3000$322122547$3$40$Yn 1.0364$own$d 2$CP1251", "hub$$$$$$$", "hub$h$d$1$2$3$4$soft"}},
	{"OpList", []string{"op$$op2$$", "$$"}},
	{"UserIP", []string{"a b 1.2.3.4$$c 1.1.1.1$$", "a$$", ""}},
	{"FailOver", []string{"a.com,b.org:5", ""}},
	{"Failed", []string{"message", ""}},
	{"Error", []string{"message", ""}},
	{"HubTopic", []string{"topic", ""}},
	{"Hello", []string{"joe", ""}},
	{"Key", []string{"abc", ""}},
	{"Version", []string{"1,0091", ""}},
	{"Direction", []string{"Upload 5", "Download 6"}},
}

func StreamReuse() {
	s := reuseSamples[sym.Choose("command", len(reuseSamples))]
	i, j := sym.Choose("first", len(s.data)), sym.Choose("second", len(s.data))
	wire := func(data string, name string) []byte {
		var l []byte
		if s.typ != "" {
			l = append(append(append(l, '$'), s.typ...), ' ')
		}
		n := len(l)
		l = append(l, data...)
		if len(data) > 0 {
			at := []int{0, len(data) / 2, len(data) - 1}
			if sym.Thorough() {
				at = []int{0, len(data) / 4, len(data) / 2, len(data) * 3 / 4, len(data) - 1}
			}
			if k := sym.Choose(name+".at", len(at)+1); k > 0 {
				b := sym.Byte(name)
				sym.Assume(b != '|')
				sym.Assume(b != 0)
				l[n+at[k-1]] = b
			}
		}
		return append(l, '|')
	}
	a := wire(s.data[i], "a")
	b := append([]byte(nil), a[:0]...)
	if i != j || sym.Thorough() {
		b = append(b, wire(s.data[j], "b")...)
	} else {
		return
	}
	want, wantErr := nmdc.Unmarshal(nil, append([]byte(nil), b...))
	if wantErr != nil {
		return
	}
	if s.typ == "" && (a[0] == '$' || b[0] == '$') {
		return
	}
	r := nmdc.NewReader(bytes.NewReader(append(append([]byte(nil), a...), b...)))
	m := nmdc.NewMessage(s.typ)
	other := nmdc.NewMessage("GetNickList")
	var got nmdc.Message
	var err error
	if sym.Choose("dropped", 2) == 1 {
		// the first one is dropped by a hook or, if malformed, ignored
		calls := 0
		r.OnMessage(func(nmdc.Message) (bool, error) { calls++; return calls > 1, nil })
		r.OnUnmarshalError = func([]byte, error) (bool, error) { calls++; return false, nil }
		if sym.Choose("any", 2) == 1 {
			got, err = r.ReadMsgToAny(other, m)
		} else {
			got, err = m, r.ReadMsgTo(m)
		}
		sym.Assert(err != io.EOF, "message lost")
	} else {
		// the first one was delivered into the same message
		if r.ReadMsgTo(m) != nil {
			return
		}
		got, err = m, r.ReadMsgTo(m)
	}
	sym.Assert(err == nil, "message refused")
	sym.Assert(sameMsg(got, want), "mixed with an earlier message")
	sym.Reach("second")
}
