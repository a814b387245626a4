package props

import (
	"bytes"
	"compress/zlib"
	"errors"
	"io"
	"os"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C16", sym.Both, StreamKeep, "three commands out of eight kinds, two bytes of each arbitrary: every message delivered stays the same while the following ones are read and after the reader's buffers are reused; the one-shot decoder gives the same message")
	sym.Register("C26", sym.Both, AdcStreamKeep, "three packets out of six kinds, two bytes of each arbitrary: every decoded packet stays the same while the following ones are read")
	sym.Register("C19", sym.Both, WriterZOn, "a history of up to 2 commands, compression at any level (-10..20), up to 2 commands, flush, compression off, one command: the plain part, the compression command and, behind it, the compressed part, read back by the reader that enables decompression at the command")
	sym.Register("C27", sym.Both, AdcZOn, "one packet, the compression command, two packets in the compressed section with or without flush, one plain packet; arbitrary contents and first read: the reader that enables decompression at the command gets the same packets")
	sym.Register("C22", sym.Both, PacketSetMessage, "packets of all eight kinds whose message is replaced by another one: the new one is returned and encoded, the addressing is unchanged")
	sym.Register("C28", sym.Both, StatusMeaning, "every severity 0..2 and code 0..99 with an arbitrary byte of text: success, recoverable and fatal are told apart by the first digit, an error carries the code and text, code 51 means that the file does not exist")
	sym.Register("C21", sym.Both, AdcNormalize, "application names of 0..2 (thorough 3) and version texts of 0..4 (thorough 5) arbitrary bytes: a name that is set is kept, otherwise the text before the last space of the version becomes the name; nothing else changes and repeating it has no effect")
	sym.Register("C21", sym.Both, AdcMasks, "arbitrary bit masks: a user type test is true exactly when the bit is set, and the bits are those of the protocol")
	sym.Register("C10", sym.Both, FlagMasks, "arbitrary flag bytes: a flag test is true exactly when the flags are set, and the flags are those of the protocol")
}

// nmdcName is the command name the protocol defines for a message.
func nmdcName(m nmdc.Message) (string, bool) {
	switch m.(type) {
	case *nmdc.Supports:
		return "Supports", true
	case *nmdc.ChatMessage:
		return "", true
	case *nmdc.PrivateMessage:
		return "To:", true
	case *nmdc.MCTo:
		return "MCTo", true
	case *nmdc.UserCommand:
		return "UserCommand", true
	case *nmdc.ConnectToMe:
		return "ConnectToMe", true
	case *nmdc.RevConnectToMe:
		return "RevConnectToMe", true
	case *nmdc.Failed:
		return "Failed", true
	case *nmdc.Error:
		return "Error", true
	case *nmdc.ADCGet:
		return "ADCGET", true
	case *nmdc.ADCSnd:
		return "ADCSND", true
	case *nmdc.Direction:
		return "Direction", true
	case *nmdc.MaxedOut:
		return "MaxedOut", true
	case *nmdc.Hello:
		return "Hello", true
	case *nmdc.ZOn:
		return "ZOn", true
	case *nmdc.Version:
		return "Version", true
	case *nmdc.HubName:
		return "HubName", true
	case *nmdc.HubIsFull:
		return "HubIsFull", true
	case *nmdc.HubTopic:
		return "HubTopic", true
	case *nmdc.FailOver:
		return "FailOver", true
	case *nmdc.Lock:
		return "Lock", true
	case *nmdc.Key:
		return "Key", true
	case *nmdc.ForceMove:
		return "ForceMove", true
	case *nmdc.Kick:
		return "Kick", true
	case *nmdc.Close:
		return "Close", true
	case *nmdc.GetTopic:
		return "GetTopic", true
	case *nmdc.SetTopic:
		return "SetTopic", true
	case *nmdc.MyPass:
		return "MyPass", true
	case *nmdc.BadPass:
		return "BadPass", true
	case *nmdc.GetPass:
		return "GetPass", true
	case *nmdc.BotINFO:
		return "BotINFO", true
	case *nmdc.SetIcon:
		return "SetIcon", true
	case *nmdc.SetLogo:
		return "SetLogo", true
	case *nmdc.HubINFO:
		return "HubINFO", true
	case *nmdc.Search:
		return "Search", true
	case *nmdc.SR:
		return "SR", true
	case *nmdc.TTHSearchActive:
		return "SA", true
	case *nmdc.TTHSearchPassive:
		return "SP", true
	case *nmdc.ValidateNick:
		return "ValidateNick", true
	case *nmdc.ValidateDenide:
		return "ValidateDenide", true
	case *nmdc.MyNick:
		return "MyNick", true
	case *nmdc.Quit:
		return "Quit", true
	case *nmdc.LogedIn:
		return "LogedIn", true
	case *nmdc.MyINFO:
		return "MyINFO", true
	case *nmdc.GetNickList:
		return "GetNickList", true
	case *nmdc.OpList:
		return "OpList", true
	case *nmdc.BotList:
		return "BotList", true
	case *nmdc.UserIP:
		return "UserIP", true
	}
	return "", false
}

// adcName is the command name the protocol defines for a message.
func adcName(m adc.Message) (string, bool) {
	switch m.(type) {
	case adc.ChatMessage:
		return "MSG", true
	case adc.RevConnectRequest:
		return "RCM", true
	case adc.ConnectRequest:
		return "CTM", true
	case adc.GetInfoRequest:
		return "GFI", true
	case adc.GetRequest:
		return "GET", true
	case adc.GetResponse:
		return "SND", true
	case adc.SIDAssign:
		return "SID", true
	case adc.UserCommand:
		return "CMD", true
	case adc.GetPassword:
		return "GPA", true
	case adc.Password:
		return "PAS", true
	case adc.Disconnect:
		return "QUI", true
	case adc.Supported:
		return "SUP", true
	case adc.Status:
		return "STA", true
	case adc.ZOn:
		return "ZON", true
	case adc.ZOff:
		return "ZOF", true
	case adc.SearchRequest:
		return "SCH", true
	case adc.SearchResult:
		return "RES", true
	case adc.UserInfo, adc.UserInfoMod, adc.HubInfo:
		return "INF", true
	}
	return "", false
}

func StreamKeep() {
	var stream []byte
	var keep []nmdc.Message
	var wire [][]byte
	n := sym.Bound(2, 3)
	var lines [][]byte
	for i := 0; i < n; i++ {
		a, b := sym.ByteRange("a", 'a', 'z'), sym.ByteRange("b", 'a', 'z')
		var l []byte
		switch sym.Choose("command", 8) {
		case 0:
			l = append(l, "<n"...)
			l = append(l, a, '>', ' ', b)
		case 1:
			l = append(l, "$Unknown "...)
			l = append(l, a, b)
		case 2:
			l = append(l, "$HubName "...)
			l = append(l, a, b)
		case 3:
			l = append(l, "$Supports x"...)
			l = append(l, a, ' ', b)
		case 4:
			l = append(l, "$NickList x"...)
			l = append(l, a, '$', '$', b, '$', '$')
		case 5:
			l = append(l, "$OpList x"...)
			l = append(l, a, '$', '$', b, '$', '$')
		case 6:
			l = append(l, "$Lock "...)
			l = append(l, a, b)
			l = append(l, " Pk=x"...)
			l = append(l, b)
		case 7:
			l = append(l, "$Key "...)
			l = append(l, a, b)
		}
		l = append(l, '|')
		stream = append(stream, l...)
		lines = append(lines, append([]byte(nil), l...))
	}
	stream = append(stream, "$HubName zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz|"...)
	r := nmdc.NewReader(&splitAt{data: stream, at: sym.Choose("first", 4) * 5, end: io.EOF})
	for i := 0; i < n; i++ {
		m, err := r.ReadMsg()
		sym.Assert(err == nil, "well-formed command refused")
		w, err := nmdc.Marshal(nil, m)
		sym.Assert(err == nil, "decoded message cannot be encoded")
		one, err := nmdc.Unmarshal(nil, lines[i])
		sym.Assert(err == nil, "one-shot decoder refuses the command")
		sym.Assert(sameMsg(one, m), "one-shot decoder gives another message")
		_, err = nmdc.Unmarshal(nil, lines[i][:len(lines[i])-1])
		sym.Assert(err == io.ErrUnexpectedEOF, "unfinished command accepted")
		keep, wire = append(keep, m), append(wire, w)
		sym.Reach("kept")
	}
	_, err := r.ReadMsg()
	sym.Assert(err == nil, "well-formed command refused")
	_, err = r.ReadMsg()
	sym.Assert(err == io.EOF, "end of stream")
	for i := range stream {
		stream[i] = '?'
	}
	for i, m := range keep {
		w, err := nmdc.Marshal(nil, m)
		sym.Assert(err == nil && sym.EqB(w, wire[i]), "a message changed after it was delivered")
	}
}

func AdcStreamKeep() {
	var stream []byte
	n := sym.Bound(2, 3)
	var lines [][]byte
	for i := 0; i < n; i++ {
		a, b := sym.ByteRange("a", 'A', 'Z'), sym.ByteRange("b", 'A', 'Z')
		var l []byte
		switch sym.Choose("packet", 6) {
		case 0:
			l = append(l, "BXYZ ABC"...)
			l = append(l, a, ' ', b)
		case 1:
			l = append(l, "IMSG "...)
			l = append(l, a, b)
		case 2:
			l = append(l, "DSCH AAA"...)
			l = append(l, a, ' ', 'C', 'C', 'C', b)
			l = append(l, " ANx TOt"...)
		case 3:
			l = append(l, "FMSG ABCD +TCP"...)
			l = append(l, a, ' ', b)
		case 4:
			l = append(l, "HSUP ADBAS"...)
			l = append(l, a)
		case 5:
			l = append(l, "BINF ABCD NI"...)
			l = append(l, a, ' ', 'D', 'E', b)
		}
		l = append(l, '\n')
		stream = append(stream, l...)
		lines = append(lines, append([]byte(nil), l...))
	}
	stream = append(stream, "IMSG zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\n"...)
	r := adc.NewReader(&splitAt{data: stream, at: sym.Choose("first", 4) * 5, end: io.EOF})
	var keep, refs []adc.Packet
	for i := 0; i < n; i++ {
		p, err := r.ReadPacket()
		sym.Assert(err == nil, "well-formed packet refused")
		ref, err := adc.DecodePacket(lines[i])
		sym.Assert(err == nil, "well-formed packet refused")
		keep, refs = append(keep, p), append(refs, ref)
	}
	_, err := r.ReadPacket()
	sym.Assert(err == nil, "well-formed packet refused")
	_, err = r.ReadPacket()
	sym.Assert(err == io.EOF, "end of stream")
	for i := range stream {
		stream[i] = '?'
	}
	for i := range keep {
		sym.Assert(samePacket(keep[i], refs[i]), "a packet changed after it was delivered")
		sym.Reach("kept")
	}
}

func WriterZOn() {
	s := &sink{limit: -1}
	w := nmdc.NewWriter(s)
	lvl := zlib.DefaultCompression
	switch sym.Choose("level", 3) {
	case 1:
		lvl = sym.Fork(sym.IntRange("level", -10, 20))
	case 2:
		lvl = zlib.BestSpeed
	}
	valid := lvl >= zlib.HuffmanOnly && lvl <= zlib.BestCompression
	var want []string
	text := func() string {
		t := sym.StringIn("text", 2, 'a', 'z')
		want = append(want, t)
		return t
	}
	for i := sym.Choose("before", 3); i > 0; i-- {
		sym.Assert(w.WriteMsg(&nmdc.HubName{String: nmdc.String(text())}) == nil, "message refused")
	}
	sym.Assert(w.Flush() == nil, "flush failed")
	plain := len(s.got)
	var err error
	if lvl == zlib.DefaultCompression {
		err = w.ZOn()
	} else {
		err = w.ZOnLevel(lvl)
	}
	sym.Assert((err == nil) == valid, "compression level")
	if !valid {
		return
	}
	sym.Assert(string(s.got[plain:]) == "$ZOn|", "compression command is not alone in front of the compressed data")
	for i := sym.Choose("inside", 3); i > 0; i-- {
		sym.Assert(w.WriteMsg(&nmdc.HubName{String: nmdc.String(text())}) == nil, "message refused")
	}
	if sym.Choose("flush", 2) == 1 {
		sym.Assert(w.Flush() == nil, "flush failed")
	}
	sym.Assert(w.DisableZlib() == nil, "compression not disabled")
	sym.Assert(w.WriteMsg(&nmdc.HubName{String: nmdc.String(text())}) == nil, "message refused")
	sym.Assert(w.Flush() == nil, "flush failed")

	r := nmdc.NewReader(&splitAt{data: s.got, at: plain + sym.Choose("first", 7), end: io.EOF})
	got := 0
	for {
		m, err := r.ReadMsg()
		if err != nil {
			sym.Assert(err == io.EOF, "end of stream")
			break
		}
		switch m := m.(type) {
		case *nmdc.ZOn:
			sym.Assert(r.EnableZlib() == nil, "decompression refused")
			sym.Reach("on")
		case *nmdc.HubName:
			sym.Assert(got < len(want) && sym.Eq(string(m.String), want[got]), "message differs")
			got++
		default:
			sym.Assert(false, "unexpected message")
		}
	}
	sym.Assert(got == len(want), "message lost")
}

func AdcZOn() {
	s := &sink{limit: -1}
	w := adc.NewWriter(s)
	var want []string
	put := func() {
		t := sym.StringIn("text", 2, 'a', 'z')
		want = append(want, t)
		sym.Assert(w.WriteInfo(adc.ChatMessage{Text: t}) == nil, "message refused")
	}
	put()
	sym.Assert(w.WriteInfo(adc.ZOn{}) == nil, "message refused")
	sym.Assert(w.EnableZlib() == nil, "compression not enabled")
	put()
	if sym.Choose("flush", 2) == 1 {
		sym.Assert(w.Flush() == nil, "flush failed")
	}
	put()
	if sym.Choose("off", 2) == 1 {
		sym.Assert(w.WriteInfo(adc.ZOff{}) == nil, "message refused")
	}
	sym.Assert(w.DisableZlib() == nil, "compression not disabled")
	put()
	sym.Assert(w.Flush() == nil, "flush failed")
	at := sym.Choose("first", 40)
	if at > len(s.got) {
		at = 0
	}
	r := adc.NewReader(&splitAt{data: s.got, at: at, end: io.EOF})
	got := 0
	for {
		p, err := r.ReadPacket()
		if err != nil {
			sym.Assert(err == io.EOF, "end of stream")
			break
		}
		sym.Assert(p.Kind() == 'I', "kind altered")
		switch m := p.Message().(type) {
		case adc.ZOn:
			sym.Assert(r.EnableZlib() == nil, "decompression refused")
			sym.Reach("on")
		case adc.ZOff:
			sym.Reach("off")
		case adc.ChatMessage:
			sym.Assert(got < len(want) && sym.Eq(m.Text, want[got]), "message differs")
			got++
		default:
			sym.Assert(false, "unexpected message")
		}
	}
	sym.Assert(got == len(want), "message lost")
}

func PacketSetMessage() {
	kind := kinds[sym.Choose("kind", len(kinds))]
	from, to := someSID("from"), someSID("to")
	cid := adc.CID(sampleHash(3))
	sel := someSel(kind, 1)
	var m1, m2 adc.Message = adc.ZOn{}, adc.ChatMessage{Text: sym.StringIn("text", 2, 'a', 'z')}
	if sym.Choose("swap", 2) == 1 {
		m1, m2 = m2, m1
	}
	p := newPacket(kind, from, to, cid, sel, m1)
	p.SetMessage(m2)
	buf, ref := bytes.NewBuffer(nil), bytes.NewBuffer(nil)
	sym.Assert(p.MarshalPacketADC(buf) == nil, "legal packet refused by the encoder")
	sym.Assert(newPacket(kind, from, to, cid, sel, m2).MarshalPacketADC(ref) == nil, "legal packet refused by the encoder")
	sym.Assert(sym.EqB(buf.Bytes(), ref.Bytes()), "replaced message is not the one encoded")
	checkPacket(p, kind, from, to, cid, sel)
	switch m := p.Message().(type) {
	case adc.ZOn:
		_, ok := m2.(adc.ZOn)
		sym.Assert(ok, "message not replaced")
	case adc.ChatMessage:
		c, ok := m2.(adc.ChatMessage)
		sym.Assert(ok && sym.Eq(c.Text, m.Text), "message not replaced")
	default:
		sym.Assert(false, "message not replaced")
	}
	sym.Assert(p.DecodeMessage() == nil, "decoded message refused")
	sym.Reach("set")
}

func StatusMeaning() {
	sev := sym.Choose("severity", 3)
	code := sym.IntRange("code", 0, 99)
	text := sym.StringIn("text", 1, 'a', 'z')
	w := []byte{'0' + byte(sev), '0' + byte(code/10), '0' + byte(code%10), ' '}
	w = append(w, text...)
	m, err := adc.UnmarshalMessage(adc.MsgType{'S', 'T', 'A'}, w)
	sym.Assert(err == nil, "status refused")
	st, ok := m.(adc.Status)
	sym.Assert(ok, "message type")
	sym.Assert(st.Code == code, "code altered")
	sym.Assert(sym.Eq(st.Msg, text), "text altered")
	want := [...]adc.Severity{adc.Success, adc.Recoverable, adc.Fatal}[sev]
	sym.Assert(st.Sev == want, "severity altered")
	sym.Assert(st.Ok() == (sev == 0), "success told wrong")
	sym.Assert(st.Recoverable() == (sev <= 1), "recoverable told wrong")
	e := st.Err()
	if sev == 0 {
		sym.Assert(e == nil, "success is an error")
		sym.Reach("ok")
		return
	}
	sym.Assert(e != nil, "failure is not an error")
	var es adc.Error
	if code == 51 {
		sym.Assert(errors.Is(e, os.ErrNotExist), "file not found")
		sym.Reach("missing")
		return
	}
	es, ok = e.(adc.Error)
	sym.Assert(ok, "error type")
	sym.Assert(sym.And(es.Code == code, sym.Eq(es.Msg, text)), "error altered")
	sym.Reach("error")
}

func AdcNormalize() {
	in := adc.UserInfo{Name: "n", Application: sym.Str("app", sym.Bound(2, 3)), Version: sym.Str("version", sym.Bound(4, 5)), Desc: "d e"}
	u := in
	u.Normalize()
	at := -1
	for i := 0; i < len(in.Version); i++ {
		if in.Version[i] == ' ' {
			at = i
		}
	}
	if in.Application == "" && at >= 0 {
		sym.Assert(sym.Eq(u.Application, in.Version[:at]), "application")
		sym.Assert(sym.Eq(u.Version, in.Version[at+1:]), "version")
		sym.Reach("split")
	} else {
		sym.Assert(sym.Eq(u.Application, in.Application), "application changed")
		sym.Assert(sym.Eq(u.Version, in.Version), "version changed")
		sym.Reach("kept")
	}
	sym.Assert(u.Name == "n" && u.Desc == "d e", "other field changed")
	v := u
	v.Normalize()
	sym.Assert(sym.And(sym.Eq(v.Application, u.Application), sym.Eq(v.Version, u.Version)), "normalising twice differs")
}

func AdcMasks() {
	bits := [...]adc.UserType{adc.UserTypeBot, adc.UserTypeRegistered, adc.UserTypeOperator, adc.UserTypeSuperUser, adc.UserTypeHubOwner, adc.UserTypeHub, adc.UserTypeHidden}
	v := int(sym.Byte("type"))
	for i, b := range bits {
		sym.Assert(int(b) == 1<<uint(i), "user type bit")
		sym.Assert(adc.UserType(v).Is(b) == (v>>uint(i)&1 == 1), "user type test")
	}
	sym.Assert(adc.CategoryHub == 1 && adc.CategoryUser == 2 && adc.CategorySearch == 4 && adc.CategoryFileList == 8, "command categories")
	sym.Assert(adc.AwayTypeNormal == 1 && adc.AwayTypeExtended == 2, "away types")
}

func FlagMasks() {
	bits := [...]nmdc.UserFlag{nmdc.FlagStatusNormal, nmdc.FlagStatusAway, nmdc.FlagStatusServer, nmdc.FlagStatusFireball, nmdc.FlagTLSDownload, nmdc.FlagTLSUpload, nmdc.FlagIPv4, nmdc.FlagIPv6}
	v := sym.Byte("flags")
	for i, b := range bits {
		sym.Assert(int(b) == 1<<uint(i), "flag bit")
		sym.Assert(nmdc.UserFlag(v).IsSet(b) == (v>>uint(i)&1 == 1), "flag test")
	}
	sym.Assert(nmdc.UserModeActive == 'A' && nmdc.UserModePassive == 'P' && nmdc.UserModeSOCKS5 == '5', "modes")
}
