package props

import (
	"math"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/types"

	"verif/harness/sym"
)

func init() {
	sym.Register("C10", sym.Both, InfoText, "one or two of nick (without spaces), description, connection, mail of 0..2 (thorough 3) arbitrary characters, the others fixed texts with protocol characters")
	sym.Register("C10", sym.Both, InfoTag, "client name (no '<', ' V:'), version, one or two extra fields (a key of one arbitrary byte, letters in either case, or a longer one; value without ',' '>' '$' '|') of 0..2 bytes; client names and fields of up to 31 bytes, every mode")
	sym.Register("C10", sym.Both, InfoFlags, "every flag byte with connection text of 0..2 characters; the flags that collide with a protocol character may be refused; flag 0 is sent as 'normal'")
	sym.Register("C10", sym.Both, InfoNumbers, "each hub count and slots over -1000..1000 and around the 32/64-bit limits, share size over 0..9999999 and up to 2^64-1")
	sym.Register("C10", sym.Both, ListTrip, "user, operator and bot lists of 0..3 non-empty nicks, two of them of 1..2 (thorough 3) arbitrary characters")
	sym.Register("C10", sym.Both, UserIPTrip, "address lists of 0..3 entries, nick (spaces allowed) of 1..2 characters and address of 0..3 bytes without space, '$', '|'")
}

func sampleInfo() *nmdc.MyINFO {
	return &nmdc.MyINFO{
		Name: "nick<>", Desc: "some <desc> $5 |, V:x", Client: types.Software{Name: "go dc++", Version: "1.0"},
		Mode: nmdc.UserModeActive, HubsNormal: 1, HubsRegistered: 22, HubsOperator: 333, Slots: 5,
		Conn: "LAN(T3)", Flag: nmdc.FlagStatusNormal | nmdc.FlagTLS, Email: "a&b@c", ShareSize: 1234567890123,
	}
}

func checkInfo(in *nmdc.MyINFO) {
	out := nTrip(in).(*nmdc.MyINFO)
	sym.Assert(sym.Eq(out.Name, in.Name), "nick")
	sym.Assert(sym.Eq(out.Desc, in.Desc), "description")
	sym.Assert(sym.Eq(out.Client.Name, in.Client.Name), "client name")
	sym.Assert(sym.Eq(out.Client.Version, in.Client.Version), "client version")
	sym.Assert(out.Mode == in.Mode, "mode")
	sym.Assert(out.HubsNormal == in.HubsNormal, "normal hubs")
	sym.Assert(out.HubsRegistered == in.HubsRegistered, "registered hubs")
	sym.Assert(out.HubsOperator == in.HubsOperator, "operator hubs")
	sym.Assert(out.Slots == in.Slots, "slots")
	sym.Assert(len(out.Extra) == len(in.Extra), "number of extra fields")
	for k, v := range in.Extra {
		v2, ok := out.Extra[k]
		sym.Assert(ok, "extra field lost")
		sym.Assert(sym.Eq(v2, v), "extra field value")
	}
	sym.Assert(sym.Eq(out.Conn, in.Conn), "connection")
	if in.Flag == 0 {
		sym.Assert(out.Flag == nmdc.FlagStatusNormal, "default flag")
	} else {
		sym.Assert(out.Flag == in.Flag, "flag")
	}
	sym.Assert(sym.Eq(out.Email, in.Email), "mail")
	sym.Assert(out.ShareSize == in.ShareSize, "share size")
}

func InfoText() {
	in := sampleInfo()
	n := sym.Bound(2, 3)
	switch sym.Choose("fields", 6) {
	case 0:
		in.Name = nick("name", 0, n, " ")
	case 1:
		in.Desc = uText("desc", 0, n)
	case 2:
		in.Conn, in.Email = aText("conn", 0, n), uText("mail", 0, 2)
	case 3:
		in.Name, in.Desc = aNick("name", 1, 1, " "), aText("desc", 0, 2)
	case 4:
		in.Desc, in.Conn = aText("desc", 0, 2), uText("conn", 0, 2)
	case 5:
		in.Email, in.Desc = uText("mail", 0, n), ""
	}
	checkInfo(in)
}

// tagText is raw tag text: the tag is not escaped on the wire.
func tagText(name string, min, max int) string {
	s := aText(name, min, max)
	sym.None(s, ",<>$|")
	return s
}

// checkTagCase: the name of a lower case field is folded.
func checkTagCase(in *nmdc.MyINFO, c byte) {
	out := nTrip(in).(*nmdc.MyINFO)
	v, ok := out.Extra[string([]byte{c - 'a' + 'A'})]
	sym.Assert(ok && len(out.Extra) == 1, "extra field lost")
	sym.Assert(sym.Eq(v, in.Extra[string([]byte{c})]), "extra field")
	sym.Reach("folded")
}

func InfoTag() {
	in := sampleInfo()
	switch sym.Choose("mode", 4) {
	case 0:
		in.Mode = nmdc.UserModePassive
	case 1:
		in.Mode = nmdc.UserModeSOCKS5
	case 2:
		in.Mode = nmdc.UserModeUnknown
	}
	n := sym.Bound(2, 3)
	switch sym.Choose("field", 5) {
	case 4:
		k := 10 + sym.Choose("long", 20)
		in.Client.Name = rep('c', k) + tagText("client", 1, 1)
		in.Extra = map[string]string{"L": rep('l', k)}
		if sym.Choose("two", 2) == 1 {
			in.Extra["LONGKEY"] = tagText("value", 0, 1) + rep('m', k)
		}
	case 0:
		in.Client.Name = tagText("client", 0, n)
	case 1:
		in.Client.Version = tagText("version", 0, n)
	case 2:
		c := sym.Byte("key") // letters stand for themselves in either case
		sym.None(string([]byte{c}), "VMHSvmhs:,<>$|\x00")
		in.Extra = map[string]string{string([]byte{c}): tagText("value", 0, n)}
		if c >= 'a' && c <= 'z' {
			checkTagCase(in, c)
			return
		}
	case 3:
		key := tagText("key", 2, 2)
		sym.None(key, ":")
		in.Extra = map[string]string{key: tagText("value", 0, 1), "L": "512:1"}
	}
	checkInfo(in)
}

func InfoFlags() {
	in := sampleInfo()
	in.Flag = nmdc.UserFlag(sym.Byte("flag"))
	in.Conn = aText("conn", 0, sym.Bound(1, 2))
	if _, ok := nEncode(in); !ok {
		sym.Assert(sym.Or(in.Flag == '$', in.Flag == '|'), "flag refused")
		sym.Reach("refused")
		return
	}
	checkInfo(in)
}

func someInt(name string) int {
	switch sym.Choose(name+".range", 4) {
	case 0:
		return sym.IntRange(name, -1000, 1000)
	case 1:
		return sym.IntRange(name, math.MinInt32-2, math.MinInt32+2)
	case 2:
		return sym.IntRange(name, math.MaxInt32-2, math.MaxInt32+2)
	}
	return sym.IntRange(name, math.MaxInt64-3, math.MaxInt64)
}

func someUint64(name string) uint64 {
	switch sym.Choose(name+".range", 4) {
	case 0:
		return sym.URange(name, 0, 9999999)
	case 1:
		return sym.URange(name, math.MaxUint32-1000, math.MaxUint32+1000)
	case 2:
		return sym.URange(name, math.MaxInt64-3, math.MaxInt64+3)
	}
	return sym.URange(name, math.MaxUint64-5, math.MaxUint64)
}

func InfoNumbers() {
	in := sampleInfo()
	switch sym.Choose("field", 5) {
	case 0:
		in.HubsNormal = someInt("hubs")
	case 1:
		in.HubsRegistered = someInt("hubs")
	case 2:
		in.HubsOperator = someInt("hubs")
	case 3:
		in.Slots = someInt("slots")
	case 4:
		in.ShareSize = someUint64("size")
	}
	checkInfo(in)
}

func ListTrip() {
	n := sym.Choose("n", 4)
	var list []string
	for i := 0; i < n; i++ {
		list = append(list, "a b<&")
	}
	if n > 0 {
		list[sym.Choose("at", n)] = nick("nick", 1, sym.Bound(2, 3), "")
		list[n-1] = aNick("last", 1, 1, "")
	}
	var m nmdc.Message
	if sym.Choose("type", 2) == 0 {
		m = &nmdc.OpList{Names: list}
	} else {
		m = &nmdc.BotList{Names: list}
	}
	var got []string
	switch out := nTrip(m).(type) {
	case *nmdc.OpList:
		got = out.Names
	case *nmdc.BotList:
		got = out.Names
	}
	sym.Assert(len(got) == n, "list length")
	for i := range list {
		sym.Assert(sym.Eq(got[i], list[i]), "list entry")
	}
}

func UserIPTrip() {
	n := sym.Choose("n", 4)
	in := &nmdc.UserIP{}
	for i := 0; i < n; i++ {
		in.List = append(in.List, nmdc.UserAddress{Name: "some one", IP: "192.168.1.2"})
	}
	if n > 0 {
		a := &in.List[sym.Choose("at", n)]
		if sym.Choose("what", 2) == 0 {
			a.Name, a.IP = nick("nick", 1, 2, ""), sym.StringIn("ip", 1, 0x20, 0x7e)
		} else {
			a.IP = sym.StringIn("ip", sym.Choose("len", 4), 0x20, 0x7e)
		}
		sym.None(a.IP, " $|")
	}
	out := nTrip(in).(*nmdc.UserIP)
	sym.Assert(len(out.List) == n, "list length")
	for i := range in.List {
		sym.Assert(sym.Eq(out.List[i].Name, in.List[i].Name), "nick")
		sym.Assert(sym.Eq(out.List[i].IP, in.List[i].IP), "address")
	}
}
