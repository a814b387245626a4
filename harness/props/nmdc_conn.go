package props

import (
	"errors"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/types"

	"verif/harness/sym"
)

func init() {
	sym.Register("C13", sym.Both, ConnectTrip, "connection requests of every kind, plain and secure; target and source nicks of 1..2 (thorough 3) arbitrary characters without space, address of 0..3 bytes not ending in N, R or S")
	sym.Register("C13", sym.Both, RevConnectTrip, "reverse requests: sender (no space) and target of 0..2 (thorough 3) arbitrary characters")
	sym.Register("C13", sym.Both, LockTrip, "locks with and without the extension prefix: lock (no space, not starting with the prefix), Pk (no 'Ref='), Ref of 0..3 arbitrary bytes, '|' excepted")
	sym.Register("C13", sym.Both, TextTrip, "every command whose payload is one text, one nick or raw text (Hello, ValidateNick, ValidateDenide, MyNick, Quit, LogedIn, Kick, Close, HubName, BotINFO, SetIcon, SetLogo, SetTopic, MyPass, ForceMove, Key, Version, Failed, Error): payload of 0..3 (thorough 4) arbitrary characters; errors are not empty")
	sym.Register("C13", sym.Both, NoArgsTrip, "every command without arguments; any payload of 1..3 bytes is refused")
	sym.Register("C13", sym.Both, SupportsTrip, "feature lists of 0..3 names of 1..2 (thorough 3) arbitrary bytes without space and '|'")
	sym.Register("C13", sym.Both, FailOverTrip, "fail-over lists of 0..3 hosts of 1..3 arbitrary bytes without ',' and '|'")
	sym.Register("C13", sym.Both, HubInfoTrip, "hub information: every text of 0..2 (thorough 3) arbitrary characters, every number in the listed ranges, software name and version (no space in the version; no space in the name when there is no version)")
	sym.Register("C17", sym.Both, KeyRef, "locks of 0..3 (thorough 5) arbitrary bytes, with and without the extension prefix: the key equals an independent implementation of the specification and has no reserved byte")
	sym.Register("C17", sym.Both, KeyCustom, "locks of 0..2 (thorough 3) arbitrary bytes, or with Pk or Ref of one arbitrary byte, any magic byte, full or partial lock string")
}

func ConnectTrip() {
	in := &nmdc.ConnectToMe{Targ: "john&", Address: "192.168.1.2:412"}
	in.Kind = nmdc.CTMKind(sym.Choose("kind", 3))
	in.Secure = sym.Choose("secure", 2) == 1
	if in.Kind == nmdc.CTMPassiveReq {
		in.Src = "peter N"
	}
	n := sym.Bound(2, 3)
	switch sym.Choose("field", 3) {
	case 0:
		in.Targ = nick("targ", 1, n, " ")
	case 1:
		in.Address = address("addr", 0, 3)
		if l := len(in.Address); l > 0 {
			sym.Assume(sym.Not(sym.OneOf(in.Address[l-1], "NRS")))
		}
	case 2:
		if in.Kind == nmdc.CTMPassiveReq {
			in.Src = nick("src", 1, n, "")
		}
	}
	out := nTrip(in).(*nmdc.ConnectToMe)
	sym.Assert(sym.Eq(out.Targ, in.Targ), "target")
	sym.Assert(sym.Eq(out.Src, in.Src), "source")
	sym.Assert(sym.Eq(out.Address, in.Address), "address")
	sym.Assert(out.Kind == in.Kind, "kind")
	sym.Assert(out.Secure == in.Secure, "secure flag")
}

func RevConnectTrip() {
	in := &nmdc.RevConnectToMe{From: "peter", To: "john x"}
	n := sym.Bound(2, 3)
	switch sym.Choose("field", 3) {
	case 0:
		in.From = nick("from", 0, n, " ")
	case 1:
		in.To = nick("to", 0, n, "")
	case 2:
		in.From, in.To = aNick("from", 1, 1, " "), aNick("to", 1, 2, "")
	}
	out := nTrip(in).(*nmdc.RevConnectToMe)
	sym.Assert(sym.Eq(out.From, in.From), "sender")
	sym.Assert(sym.Eq(out.To, in.To), "target")
}

// raw is arbitrary bytes without those in not and the terminator.
func raw(name string, min, max int, not string) string {
	s := sym.StrN(name, min, max)
	sym.None(s, "|"+not)
	return s
}

func LockTrip() {
	in := &nmdc.Lock{NoExt: sym.Choose("noext", 2) == 1, Lock: "ABC$DEF"}
	switch sym.Choose("field", 4) {
	case 0:
		in.Lock = raw("lock", 0, 3, " ")
	case 1:
		in.PK = raw("pk", 0, 3, "")
	case 2:
		in.Ref = raw("ref", 0, 3, "")
	case 3:
		in.PK, in.Ref = raw("pk", 1, 2, ""), raw("ref", 1, 2, "")
	}
	if sym.Choose("more", 2) == 1 {
		if in.PK == "" {
			in.PK = "DCPLUSPLUS0.777"
		}
		if in.Ref == "" {
			in.Ref = "dchub://a"
		}
	}
	out := nTrip(in).(*nmdc.Lock)
	sym.Assert(out.NoExt == in.NoExt, "extension flag")
	sym.Assert(sym.Eq(out.Lock, in.Lock), "lock")
	sym.Assert(sym.Eq(out.PK, in.PK), "Pk")
	sym.Assert(sym.Eq(out.Ref, in.Ref), "Ref")
}

func TextTrip() {
	n := sym.Bound(3, 4)
	k := sym.Choose("command", 19)
	var s string
	switch {
	case k < 8:
		s = nick("nick", 0, n, "")
	case k < 14:
		s = uText("text", 0, n)
	case k < 17:
		s = raw("raw", 0, n, "")
	default:
		s = uText("error", 1, n)
	}
	var in nmdc.Message
	switch k {
	case 0:
		in = &nmdc.Hello{Name: nmdc.Name(s)}
	case 1:
		in = &nmdc.ValidateNick{Name: nmdc.Name(s)}
	case 2:
		in = &nmdc.ValidateDenide{Name: nmdc.Name(s)}
	case 3:
		in = &nmdc.MyNick{Name: nmdc.Name(s)}
	case 4:
		in = &nmdc.Quit{Name: nmdc.Name(s)}
	case 5:
		in = &nmdc.LogedIn{Name: nmdc.Name(s)}
	case 6:
		in = &nmdc.Kick{Name: nmdc.Name(s)}
	case 7:
		in = &nmdc.Close{Name: nmdc.Name(s)}
	case 8:
		in = &nmdc.HubName{String: nmdc.String(s)}
	case 9:
		in = &nmdc.BotINFO{String: nmdc.String(s)}
	case 10:
		in = &nmdc.SetIcon{String: nmdc.String(s)}
	case 11:
		in = &nmdc.SetLogo{String: nmdc.String(s)}
	case 12:
		in = &nmdc.SetTopic{String: nmdc.String(s)}
	case 13:
		in = &nmdc.MyPass{String: nmdc.String(s)}
	case 14:
		in = &nmdc.ForceMove{Address: s}
	case 15:
		in = &nmdc.Key{Key: s}
	case 16:
		in = &nmdc.Version{Vers: s}
	case 17:
		in = &nmdc.Failed{Err: errors.New(s)}
	case 18:
		in = &nmdc.Error{Err: errors.New(s)}
	}
	var got string
	switch m := nTrip(in).(type) {
	case *nmdc.Hello:
		got = string(m.Name)
	case *nmdc.ValidateNick:
		got = string(m.Name)
	case *nmdc.ValidateDenide:
		got = string(m.Name)
	case *nmdc.MyNick:
		got = string(m.Name)
	case *nmdc.Quit:
		got = string(m.Name)
	case *nmdc.LogedIn:
		got = string(m.Name)
	case *nmdc.Kick:
		got = string(m.Name)
	case *nmdc.Close:
		got = string(m.Name)
	case *nmdc.HubName:
		got = string(m.String)
	case *nmdc.BotINFO:
		got = string(m.String)
	case *nmdc.SetIcon:
		got = string(m.String)
	case *nmdc.SetLogo:
		got = string(m.String)
	case *nmdc.SetTopic:
		got = string(m.String)
	case *nmdc.MyPass:
		got = string(m.String)
	case *nmdc.ForceMove:
		got = m.Address
	case *nmdc.Key:
		got = m.Key
	case *nmdc.Version:
		got = m.Vers
	case *nmdc.Failed:
		sym.Assert(m.Err != nil, "error lost")
		got = m.Err.Error()
	case *nmdc.Error:
		sym.Assert(m.Err != nil, "error lost")
		got = m.Err.Error()
	default:
		sym.Assert(false, "command not registered")
	}
	sym.Assert(sym.Eq(got, s), "payload")
}

func NoArgsTrip() {
	var in nmdc.Message
	switch sym.Choose("command", 7) {
	case 0:
		in = &nmdc.HubIsFull{}
	case 1:
		in = &nmdc.ZOn{}
	case 2:
		in = &nmdc.GetTopic{}
	case 3:
		in = &nmdc.BadPass{}
	case 4:
		in = &nmdc.GetPass{}
	case 5:
		in = &nmdc.MaxedOut{}
	case 6:
		in = &nmdc.GetNickList{}
	}
	p, ok := nEncode(in)
	sym.Assert(ok, "refused by the encoder")
	sym.Assert(len(p) == 0, "unexpected payload")
	m, err := nDecode(in.Type(), p)
	sym.Assert(err == nil, "refused by the decoder")
	_, isRaw := m.(*nmdc.RawMessage)
	sym.Assert(!isRaw, "command not registered")
	_, err = nDecode(in.Type(), []byte(sym.StrN("junk", 1, 3)))
	sym.Assert(err != nil, "unexpected arguments accepted")
}

func SupportsTrip() {
	n := sym.Choose("n", 4)
	in := &nmdc.Supports{}
	for i := 0; i < n; i++ {
		in.Ext = append(in.Ext, "TTHSearch")
	}
	if n > 0 {
		in.Ext[sym.Choose("at", n)] = raw("ext", 1, sym.Bound(2, 3), " ")
		in.Ext[0] = raw("first", 1, 1, " ")
	}
	out := nTrip(in).(*nmdc.Supports)
	sym.Assert(len(out.Ext) == n, "number of features")
	for i := range in.Ext {
		sym.Assert(sym.Eq(out.Ext[i], in.Ext[i]), "feature")
	}
}

func FailOverTrip() {
	n := sym.Choose("n", 4)
	in := &nmdc.FailOver{}
	for i := 0; i < n; i++ {
		in.Host = append(in.Host, "adc://example.net:6666")
	}
	if n > 0 {
		in.Host[sym.Choose("at", n)] = raw("host", 1, 3, ",")
	}
	out := nTrip(in).(*nmdc.FailOver)
	sym.Assert(len(out.Host) == n, "number of hosts")
	for i := range in.Host {
		sym.Assert(sym.Eq(out.Host[i], in.Host[i]), "host")
	}
}

func HubInfoTrip() {
	in := &nmdc.HubINFO{Name: "hub & $", Host: "example.com:411", Desc: "d|", I1: 1, I2: 20, I3: 300, I4: 4000,
		Soft: types.Software{Name: "go hub", Version: "1.2"}, Owner: "me$", State: "x y", Encoding: "CP1251"}
	n := sym.Bound(2, 3)
	switch sym.Choose("field", 13) {
	case 0:
		in.Name = uText("name", 0, n)
	case 1:
		in.Host = raw("host", 0, n, "$")
	case 2:
		in.Desc = uText("desc", 0, n)
	case 3:
		in.I1 = someInt("i")
	case 4:
		in.I2 = someInt("i")
	case 5:
		in.I3 = someInt("i")
	case 6:
		in.I4 = someInt("i")
	case 7:
		in.Soft.Name = raw("soft", 0, n, "$")
	case 8:
		in.Soft.Version = raw("version", 1, n, "$ ")
	case 9:
		in.Soft.Name, in.Soft.Version = raw("soft", 0, n, "$ "), ""
	case 10:
		in.Owner = uText("owner", 0, n)
	case 11:
		in.State = uText("state", 0, n)
	case 12:
		in.Encoding = raw("encoding", 0, n, "$")
	}
	out := nTrip(in).(*nmdc.HubINFO)
	sym.Assert(sym.Eq(out.Name, in.Name), "name")
	sym.Assert(sym.Eq(out.Host, in.Host), "host")
	sym.Assert(sym.Eq(out.Desc, in.Desc), "description")
	sym.Assert(out.I1 == in.I1, "first number")
	sym.Assert(out.I2 == in.I2, "second number")
	sym.Assert(out.I3 == in.I3, "third number")
	sym.Assert(out.I4 == in.I4, "fourth number")
	sym.Assert(sym.Eq(out.Soft.Name, in.Soft.Name), "software")
	sym.Assert(sym.Eq(out.Soft.Version, in.Soft.Version), "software version")
	sym.Assert(sym.Eq(out.Owner, in.Owner), "owner")
	sym.Assert(sym.Eq(out.State, in.State), "state")
	sym.Assert(sym.Eq(out.Encoding, in.Encoding), "encoding")
}

// refKey is the key of the NMDC specification, without the escaping.
func refKey(lock string, magic byte) []byte {
	n := len(lock)
	if n < 2 {
		return nil
	}
	key := make([]byte, n)
	prev := lock[n-1] ^ lock[n-2] ^ magic
	for i := 0; i < n; i++ {
		x := lock[i] ^ prev
		key[i] = x>>4 | x<<4
		prev = lock[i]
	}
	return key
}

// checkKey compares an escaped key with the plain one.
func checkKey(got string, plain []byte) {
	for i := 0; i < len(plain); i++ {
		v := plain[i]
		if sym.OneOf(v, "\x00\x05$`|~") {
			sym.Assert(len(got) >= 10, "key too short")
			dec := got[:10]
			sym.Assert(dec[:5] == "/%DCN" && dec[8:] == "%/", "reserved byte is not escaped")
			num := int(dec[5]-'0')*100 + int(dec[6]-'0')*10 + int(dec[7]-'0')
			sym.Assert(num == int(v), "wrong escape")
			got = got[10:]
			sym.Reach("escaped")
			continue
		}
		sym.Assert(len(got) >= 1, "key too short")
		sym.Assert(got[0] == v, "key byte")
		got = got[1:]
	}
	sym.Assert(len(got) == 0, "key too long")
}

func KeyRef() {
	l := &nmdc.Lock{NoExt: sym.Choose("noext", 2) == 1, Lock: sym.Str("lock", sym.Bound(3, 5)), PK: "pk", Ref: "ref"}
	full := l.Lock
	if !l.NoExt {
		full = "EXTENDEDPROTOCOL" + l.Lock
	}
	k := l.Key()
	if len(full) >= 2 {
		checkKey(k.Key, refKey(full, 5))
	}
	sym.Reach("done")
}

func KeyCustom() {
	l := &nmdc.Lock{NoExt: sym.Choose("noext", 2) == 1, Lock: "lo"}
	switch sym.Choose("extra", 4) {
	case 0:
		l.Lock = sym.Str("lock", sym.Bound(2, 3))
	case 1:
		l.PK = sym.String("pk", 1)
	case 2:
		l.Ref = sym.String("ref", 1)
	case 3:
		l.PK, l.Ref = "pk", "r"
	}
	magic := sym.Byte("magic")
	full := l.Lock
	if !l.NoExt {
		full = "EXTENDEDPROTOCOL" + l.Lock
	}
	whole := sym.Choose("full", 2) == 1
	if whole {
		if l.PK != "" {
			full += " Pk=" + l.PK
		}
		if l.Ref != "" {
			if l.PK == "" {
				full += " "
			}
			full += "Ref=" + l.Ref
		}
	}
	sym.Assert(sym.Eq(l.LockString(whole), full), "lock string")
	k := l.CustomKey(magic, whole)
	if len(full) >= 2 {
		checkKey(k.Key, refKey(full, magic))
	}
}
