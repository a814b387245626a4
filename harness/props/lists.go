package props

import (
	"bytes"
	"strconv"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/types"

	"verif/harness/sym"
)

func init() {
	const what = " with 3..1100 (thorough 5000) different items, one of them (the first, second, middle or last) having an arbitrary byte: all items, in their order, survive the way over the wire"
	sym.Register("C09", sym.Both, LongMenu, "a user command's path"+what)
	sym.Register("C10", sym.Both, LongNames, "operator, bot and nick address lists, and MyINFO's extra tag fields,"+what)
	sym.Register("C11", sym.Both, LongResult, "the path of a search result"+what)
	sym.Register("C13", sym.Both, LongConn, "feature and failover lists"+what)
	sym.Register("C21", sym.Both, AdcLongLists, "the repeated and list fields of ADC messages"+what)
	sym.Register("C21", sym.Both, AdcLongTexts, "each text of user and hub information, chat, status and search messages of 24..2050 (thorough 9000) plain, space or backslash characters with an arbitrary byte at its start, middle or end: it and its neighbours survive the way over the wire")
	sym.Register("C22", sym.Both, AdcLongSelectors, "feature packets with 3..40 conditions, one of them having an arbitrary byte, and payloads of 24..2050 bytes with an arbitrary one, in every kind of packet: the same packet comes back")
}

var listSizes = [...]int{3, 17, 40, 130, 300, 600, 1100, 5000}

// longList is a list of different texts, one with an arbitrary byte.
func longList(not string) []string {
	n := listSizes[sym.Choose("items", sym.Bound(7, 8))]
	l := make([]string, n)
	for i := range l {
		l[i] = "n" + strconv.Itoa(i*i)
	}
	at := [...]int{0, 1, n / 2, n - 1}
	items, places := at[:], 3
	if n > 130 && sym.Bound(0, 1) == 0 {
		items, places = at[3:], 1
	}
	i := items[sym.Choose("item", len(items))]
	c := sym.StringIn("c", 1, 1, 0x7f)
	sym.None(c, not)
	switch sym.Choose("byte at", places) {
	case 0:
		l[i] = c + l[i]
	case 1:
		l[i] += c
	case 2:
		l[i] = c
	}
	return l
}

func LongMenu() {
	in := &nmdc.UserCommand{Typ: 1, Context: 3, Path: longList("\\"), Command: "$To: x"}
	m := in.Path[len(in.Path)-1]
	sym.Assume(m[len(m)-1] != ' ') // as in UserCommandTrip
	out := nTrip(in).(*nmdc.UserCommand)
	sym.Assert(out.Typ == in.Typ && out.Context == in.Context, "kind of the command")
	sym.Assert(sameList(in.Path, out.Path), "path altered")
	sym.Assert(sym.Eq(in.Command, out.Command), "command altered")
}

func LongNames() {
	var in, out []string
	switch k := sym.Choose("list", 4); k {
	case 0:
		in = longList(nickNot)
		out = nTrip(&nmdc.OpList{Names: in}).(*nmdc.OpList).Names
	case 1:
		in = longList(nickNot)
		out = nTrip(&nmdc.BotList{Names: in}).(*nmdc.BotList).Names
	case 2:
		in = longList(nickNot)
		m := &nmdc.UserIP{}
		for i, s := range in {
			m.List = append(m.List, nmdc.UserAddress{Name: s, IP: "10.0.0." + strconv.Itoa(i)})
		}
		o := nTrip(m).(*nmdc.UserIP)
		for i, a := range o.List {
			out = append(out, a.Name)
			sym.Assert(sym.Eq(a.IP, "10.0.0."+strconv.Itoa(i)), "address of another user")
		}
	case 3:
		in = longList("$|<>,:")
		m := &nmdc.MyINFO{Name: "n", Client: types.Software{Name: "C", Version: "1"}, Mode: nmdc.UserModeActive, HubsNormal: 1, Slots: 1, Conn: "c", Flag: nmdc.FlagStatusNormal, Email: "e", ShareSize: 7, Extra: map[string]string{}}
		for i, s := range in {
			m.Extra["Z"+strconv.Itoa(i)] = s
		}
		o := nTrip(m).(*nmdc.MyINFO)
		sym.Assert(len(o.Extra) == len(in), "number of items")
		for i := range in {
			out = append(out, o.Extra["Z"+strconv.Itoa(i)])
		}
		sym.Assert(o.Slots == 1 && o.HubsNormal == 1 && o.ShareSize == 7 && o.Conn == "c" && o.Email == "e", "neighbour altered")
	}
	sym.Assert(sameList(in, out), "list altered")
}

func LongResult() {
	in := &nmdc.SR{From: "me", Path: longList("/\\\x05"), Size: 12, FreeSlots: 3, TotalSlots: 10, HubName: "hub", HubAddress: "1.2.3.4:411", To: "you"}
	if sym.Choose("dir", 2) == 1 {
		in.IsDir, in.Size = true, 0
	}
	out := nTrip(in).(*nmdc.SR)
	sym.Assert(sameList(in.Path, out.Path), "path altered")
	sym.Assert(out.From == "me" && out.IsDir == in.IsDir && out.Size == in.Size && out.FreeSlots == 3 && out.TotalSlots == 10 && out.HubName == "hub" && out.HubAddress == "1.2.3.4:411" && out.To == "you", "neighbour altered")
}

func LongConn() {
	var in, out []string
	switch sym.Choose("list", 2) {
	case 0:
		in = longList("| ")
		out = nTrip(&nmdc.Supports{Ext: in}).(*nmdc.Supports).Ext
	case 1:
		in = longList("|,")
		out = nTrip(&nmdc.FailOver{Host: in}).(*nmdc.FailOver).Host
	}
	sym.Assert(sameList(in, out), "list altered")
}

// longFeatures is a list of different features, one with an arbitrary byte.
func longFeatures() adc.ExtFeatures {
	n := [...]int{3, 17, 40, 200, 1200}[sym.Choose("items", 5)]
	l := make(adc.ExtFeatures, n)
	for i := range l {
		l[i] = adc.Feature{'F', byte('0' + i%10), byte('A' + i/10%26), byte('A' + i/260)}
	}
	c := wordByte("c")
	sym.Assume(c != ',')
	l[[...]int{0, 1, n / 2, n - 1}[sym.Choose("item", 4)]][sym.Choose("byte at", 4)] = c
	return l
}

func AdcLongLists() {
	switch sym.Choose("message", 6) {
	case 0:
		in := adc.UserInfo{Name: "n", Features: longFeatures(), Slots: 3}
		out, ok := aDecode(in, aPayloadOf(in)).(adc.UserInfo)
		sym.Assert(ok && out.Name == "n" && out.Slots == 3, "neighbour altered")
		sym.Assert(sameFeatures(in.Features, out.Features), "list altered")
	case 1:
		in := adc.SearchRequest{And: longList(""), Not: []string{"q"}, Token: "t"}
		out, ok := aDecode(in, aPayloadOf(in)).(adc.SearchRequest)
		sym.Assert(ok && out.Token == "t" && sameList(in.Not, out.Not), "neighbour altered")
		sym.Assert(sameList(in.And, out.And), "list altered")
	case 2:
		in := adc.SearchRequest{And: []string{"q"}, Ext: longList(""), Token: "t"}
		out, ok := aDecode(in, aPayloadOf(in)).(adc.SearchRequest)
		sym.Assert(ok && out.Token == "t" && sameList(in.And, out.And), "neighbour altered")
		sym.Assert(sameList(in.Ext, out.Ext), "list altered")
	case 3:
		in := adc.UserCommand{Path: adc.Path(longList("/")), Command: "c", Category: adc.CategoryHub}
		out, ok := aDecode(in, aPayloadOf(in)).(adc.UserCommand)
		sym.Assert(ok && out.Command == "c" && out.Category == adc.CategoryHub, "neighbour altered")
		sym.Assert(sameList(in.Path, out.Path), "list altered")
	case 5:
		var in, out adc.UserInfoMod
		for i, v := range longList("") {
			in = append(in, adc.Field{Tag: [2]byte{byte('A' + i%26), byte('A' + i/26)}, Value: v})
		}
		err := adc.Unmarshal(aPayloadOf(in), &out)
		sym.Assert(err == nil && len(out) == len(in), "number of items")
		for i := range in {
			sym.Assert(in[i].Tag == out[i].Tag && sym.Eq(in[i].Value, out[i].Value), "field altered")
			sym.Assert(sym.Eq(out[i].String(), string(in[i].Tag[:])+in[i].Value), "shown field")
		}
	case 4:
		l := longFeatures()
		in := adc.Supported{Features: adc.ModFeatures{}}
		for i, f := range l {
			in.Features[f] = i%3 != 0
		}
		out, ok := aDecode(in, aPayloadOf(in)).(adc.Supported)
		sym.Assert(ok && len(out.Features) == len(in.Features), "number of items")
		for f, v := range in.Features {
			w, ok := out.Features[f]
			sym.Assert(ok && w == v, "feature altered")
		}
	}
}

func aPayloadOf(m adc.Message) []byte {
	buf := bytes.NewBuffer(nil)
	err := adc.Marshal(buf, m)
	sym.Assert(err == nil, "legal message refused by the encoder")
	oneLine(buf.Bytes())
	return buf.Bytes()
}

func sameFeatures(a, b adc.ExtFeatures) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, sym.EqB(a[i][:], b[i][:]))
	}
	return r
}

// longAdcText is a long text with an arbitrary byte.
func longAdcText() string {
	n := longSizes[sym.Choose("size", sym.Bound(8, len(longSizes)))]
	b := bytes.Repeat([]byte{"a \\"[sym.Choose("fill", 3)]}, n)
	b[[...]int{0, n / 2, n - 1}[sym.Choose("at", 3)]] = sym.Byte("c")
	return string(b)
}

func AdcLongTexts() {
	s := longAdcText()
	switch sym.Choose("message", 7) {
	case 0:
		in := adc.UserInfo{Name: "n", Desc: s, Email: "e"}
		if sym.Choose("field", 2) == 1 {
			in.Name, in.Desc = s, "d"
		}
		out, ok := aDecode(in, aPayloadOf(in)).(adc.UserInfo)
		sym.Assert(ok && sym.Eq(in.Name, out.Name) && sym.Eq(in.Desc, out.Desc) && out.Email == "e", "text altered")
	case 1:
		in := adc.HubInfo{Name: s, Desc: "d"}
		var out adc.HubInfo
		err := adc.Unmarshal(aPayloadOf(in), &out)
		sym.Assert(err == nil, "encoded message refused by the decoder")
		sym.Assert(sym.Eq(in.Name, out.Name) && out.Desc == "d", "text altered")
	case 2:
		in := adc.ChatMessage{Text: s, Me: true}
		out, ok := aDecode(in, aPayloadOf(in)).(adc.ChatMessage)
		sym.Assert(ok && sym.Eq(in.Text, out.Text) && out.Me, "text altered")
	case 3:
		in := adc.Status{Sev: adc.Recoverable, Code: 44, Msg: s}
		out, ok := aDecode(in, aPayloadOf(in)).(adc.Status)
		sym.Assert(ok && sym.Eq(in.Msg, out.Msg) && out.Sev == in.Sev && out.Code == 44, "text altered")
	case 4:
		in := adc.SearchResult{Token: "t", Path: s, Slots: 2}
		out, ok := aDecode(in, aPayloadOf(in)).(adc.SearchResult)
		sym.Assert(ok && sym.Eq(in.Path, out.Path) && out.Token == "t" && out.Slots == 2, "text altered")
	case 5:
		in := adc.GetRequest{Type: "file", Path: s, Start: 3, Bytes: -1, Compressed: true}
		out, ok := aDecode(in, aPayloadOf(in)).(adc.GetRequest)
		sym.Assert(ok && sym.Eq(in.Path, out.Path) && out.Type == "file" && out.Start == 3 && out.Bytes == -1 && out.Compressed, "text altered")
	case 6:
		in := adc.SearchRequest{And: []string{"a", s, "b"}, Token: "t"}
		out, ok := aDecode(in, aPayloadOf(in)).(adc.SearchRequest)
		sym.Assert(ok && sameList(in.And, out.And) && out.Token == "t", "text altered")
	}
}

func AdcLongSelectors() {
	kind := kinds[sym.Choose("kind", len(kinds))]
	name := adc.MsgType{'x', 'S', 'G'}
	from, to, cid := adc.SID{'A', 'B', 'C', 'D'}, adc.SID{'E', 'F', 'G', '2'}, adc.CID(sampleHash(3))
	var sel []adc.FeatureSel
	payload := []byte("text")
	if kind == 'F' && sym.Choose("long", 2) == 0 {
		for i, f := range longFeatures() {
			sel = append(sel, adc.FeatureSel{Fea: f, Sel: i%3 != 0})
		}
	} else {
		n := longSizes[sym.Choose("size", sym.Bound(8, len(longSizes)))]
		payload = bytes.Repeat([]byte{"a \\"[sym.Choose("fill", 3)]}, n)
		c := sym.Byte("c")
		sym.Assume(sym.And(c != '\n', c != 0))
		payload[[...]int{0, n / 2, n - 1}[sym.Choose("at", 3)]] = c
		sym.Assume(sym.And(payload[0] != '+', payload[0] != '-'))
	}
	p := newPacket(kind, from, to, cid, sel, &adc.RawMessage{Type: name, Data: payload})
	buf := bytes.NewBuffer(nil)
	sym.Assert(p.MarshalPacketADC(buf) == nil, "legal packet refused by the encoder")
	line := append([]byte(nil), buf.Bytes()...)
	sym.Observe("line", line)
	sym.Assert(sym.EqB(line, refLine(kind, name[:], from, to, cid, sel, payload)), "not the line the protocol defines")
	q, err := adc.DecodePacket(line)
	sym.Assert(err == nil, "encoded packet refused by the decoder")
	for i := range line {
		line[i] = '?'
	}
	checkPacket(q, kind, from, to, cid, sel)
	raw, ok := q.Message().(*adc.RawMessage)
	sym.Assert(ok && raw.Type == name, "message altered")
	sym.Assert(sym.EqB(raw.Data, payload), "payload altered")
}
