package props

import (
	"bytes"

	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C11", sym.Both, SearchPattern, "active and passive searches; pattern of 0..3 (thorough 4) arbitrary characters; nick of 0..2, address of 0..3 bytes without space and '|', not starting with 'Hub:'")
	sym.Register("C11", sym.Both, SearchNumbers, "size restriction flags, size over 0..9999999, around 2^32, 2^63 and up to 2^64-1, every data type up to 2^64-1 except the hashed one; type 0 is sent as 'any'; the direction of an absent size restriction is not sent")
	sym.Register("C11", sym.Both, SearchTTH, "hashed searches (Search, SA, SP): two arbitrary bytes at every position of the hash, nick or address of 0..2 characters")
	sym.Register("C11", sym.Both, ResultPaths, "search results for files and directories: 1..3 path elements without backslash and 0x05, one of 0..2 (thorough 3) arbitrary characters; files whose name does not end in ' N/M' (these look like directories)")
	sym.Register("C11", sym.Both, ResultFields, "search results: sender (no space), target, hub name (no ' (', not starting 'TTH:'), hub address (no ')') of 0..2 arbitrary characters, with and without hash and target")
	sym.Register("C11", sym.Both, ResultNumbers, "search results: size up to 2^64-1, slots 0..1000 and around the 32/64-bit limits")
}

// twoParts checks that a search is its address and its condition: all other
// spaces are sent as '$'.
func twoParts(in *nmdc.Search) {
	p, ok := nEncode(in)
	i := bytes.IndexByte(p, ' ')
	sym.Assert(ok && i >= 0, "search has no parts")
	more := false
	for _, c := range p[i+1:] {
		more = sym.Or(more, c == ' ')
	}
	sym.Assert(sym.Not(more), "pattern contains a raw space")
}

func checkSearch(in *nmdc.Search) {
	twoParts(in)
	out := nTrip(in).(*nmdc.Search)
	sym.Assert(sym.Eq(out.Address, in.Address), "address")
	sym.Assert(sym.Eq(out.User, in.User), "user")
	sym.Assert(out.SizeRestricted == in.SizeRestricted, "size restriction")
	if in.SizeRestricted {
		sym.Assert(out.IsMaxSize == in.IsMaxSize, "size direction")
	}
	sym.Assert(out.Size == in.Size, "size")
	typ := in.DataType
	if typ == 0 {
		typ = nmdc.DataTypeAny
	}
	sym.Assert(out.DataType == typ, "data type")
	sym.Assert(sym.Eq(out.Pattern, in.Pattern), "pattern")
	checkTTH(out.TTH, in.TTH)
}

func checkTTH(out, in *nmdc.TTH) {
	sym.Assert((out != nil) == (in != nil), "presence of the hash")
	if in != nil {
		sym.Assert(sym.EqB(out[:], in[:]), "hash")
	}
}

// address is arbitrary raw address text.
func address(name string, min, max int) string {
	s := sym.StringIn(name, min+sym.Choose(name+".len", max-min+1), 0x21, 0x7e)
	sym.None(s, "|$")
	return s
}

func SearchPattern() {
	in := &nmdc.Search{SizeRestricted: true, Size: 1000000, DataType: nmdc.DataTypeVideo, Pattern: "a $ b|?TTH:&#36;"}
	n := sym.Bound(3, 4)
	switch sym.Choose("fields", 4) {
	case 0:
		in.Address = "192.168.1.5:412"
		in.Pattern = uText("pattern", 0, n)
	case 1:
		in.User = "user"
		in.Pattern = uText("pattern", 0, n)
	case 2:
		in.User = nick("user", 1, 2, " ")
		in.Pattern = aText("pattern", 0, 1)
	case 3:
		in.Address = address("address", 1, 3)
	}
	checkSearch(in)
}

func SearchNumbers() {
	in := &nmdc.Search{Address: "1.2.3.4:412", Pattern: "x", SizeRestricted: sym.Bool("restricted"), IsMaxSize: sym.Bool("max"), DataType: nmdc.DataTypeAny}
	switch sym.Choose("field", 3) {
	case 0:
		in.Size = someUint64("size")
	case 1:
		in.DataType = nmdc.DataType(someUint64("type"))
	case 2:
		in.DataType = nmdc.DataType(sym.URange("type", 0, 20))
		in.Size = sym.URange("size", 0, 99)
	}
	sym.Assume(in.DataType != nmdc.DataTypeTTH)
	checkSearch(in)
}

var sampleTTH = nmdc.TTH{0xbb, 1, 0xf6, 2, 0x5a, 3, 0, 0xff, 0x10, 0x20, 0x7f, 0x80, 0x81, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0x55, 0xaa}

// someTTH has two arbitrary neighbouring bytes.
func someTTH(name string) nmdc.TTH {
	h := sampleTTH
	i := sym.Choose(name+".at", len(h)-1)
	h[i], h[i+1] = sym.Byte(name), sym.Byte(name)
	return h
}

func SearchTTH() {
	h := someTTH("tth")
	switch sym.Choose("msg", 3) {
	case 0:
		in := &nmdc.Search{DataType: nmdc.DataTypeTTH, TTH: &h, User: aNick("user", 1, 1, " ")}
		checkSearch(in)
	case 1:
		in := &nmdc.TTHSearchActive{TTH: h, Address: address("address", 0, 2)}
		out := nTrip(in).(*nmdc.TTHSearchActive)
		sym.Assert(sym.Eq(out.Address, in.Address), "address")
		checkTTH(&out.TTH, &h)
	case 2:
		in := &nmdc.TTHSearchPassive{TTH: h, User: aNick("user", 0, 2, "")}
		out := nTrip(in).(*nmdc.TTHSearchPassive)
		sym.Assert(sym.Eq(out.User, in.User), "user")
		checkTTH(&out.TTH, &h)
	}
}

func sampleSR() *nmdc.SR {
	h := sampleTTH
	return &nmdc.SR{From: "me", Path: []string{"dir $1", "&amp;|", "file 1.txt"}, Size: 1234567890123, FreeSlots: 3, TotalSlots: 10, TTH: &h, HubAddress: "1.2.3.4:411", To: "you 2"}
}

func checkSR(in *nmdc.SR) {
	out := nTrip(in).(*nmdc.SR)
	sym.Assert(sym.Eq(out.From, in.From), "sender")
	sym.Assert(len(out.Path) == len(in.Path), "path length")
	for i := range in.Path {
		sym.Assert(sym.Eq(out.Path[i], in.Path[i]), "path element")
	}
	sym.Assert(out.IsDir == in.IsDir, "kind")
	if in.IsDir {
		sym.Assert(out.Size == 0, "directory size")
	} else {
		sym.Assert(out.Size == in.Size, "size")
	}
	sym.Assert(out.FreeSlots == in.FreeSlots, "free slots")
	sym.Assert(out.TotalSlots == in.TotalSlots, "total slots")
	if in.TTH == nil {
		sym.Assert(sym.Eq(out.HubName, in.HubName), "hub name")
	}
	checkTTH(out.TTH, in.TTH)
	sym.Assert(sym.Eq(out.HubAddress, in.HubAddress), "hub address")
	sym.Assert(sym.Eq(out.To, in.To), "target")
}

func ResultPaths() {
	in := sampleSR()
	in.IsDir = sym.Choose("dir", 2) == 1
	in.Path = in.Path[:1+sym.Choose("n", 3)]
	p := uText("path", 0, sym.Bound(2, 3))
	sym.None(p, "\\\x05")
	in.Path[sym.Choose("at", len(in.Path))] = p
	if !in.IsDir {
		sym.Assume(!endsInSlots(in.Path[len(in.Path)-1]))
	}
	if sym.Choose("num", 2) == 1 {
		in.Path = append(in.Path, "10 3")
	}
	checkSR(in)
}

// endsInSlots tells that s ends in a space followed by digits and a slash: a
// file of that name can't be told from a directory.
func endsInSlots(s string) bool {
	sep := false
	for i := len(s) - 1; i >= 0; i-- {
		c := s[i]
		if c == '/' {
			sep = true
		} else if c < '0' || c > '9' {
			return sep && c == ' '
		}
	}
	return false
}

func ResultFields() {
	in := sampleSR()
	in.IsDir = sym.Choose("dir", 2) == 1
	n := sym.Bound(2, 3)
	switch sym.Choose("fields", 5) {
	case 0:
		in.From = nick("from", 0, n, " ")
	case 1:
		in.To = nick("to", 0, n, "")
	case 2:
		in.TTH = nil
		in.HubName = uText("hub", 0, n)
		if sym.Choose("long", 2) == 1 {
			in.HubName = "My hub (" + in.HubName + ") (EU)"
		}
		for i := 1; i < len(in.HubName); i++ {
			sym.Assume(sym.Or(in.HubName[i] != 5, in.HubName[i-1] != ')'))
		}
		in.To = in.To[:5*sym.Choose("target", 2)]
	case 3:
		in.HubAddress = aText("addr", 0, n)
		sym.None(in.HubAddress, ")|$")
		in.To = aNick("to", 0, 1, "")
	case 4:
		h := someTTH("tth")
		in.TTH, in.To = &h, ""
	}
	checkSR(in)
}

func ResultNumbers() {
	in := sampleSR()
	in.IsDir = sym.Choose("dir", 2) == 1
	switch sym.Choose("field", 3) {
	case 0:
		in.Size = someUint64("size")
	case 1:
		in.FreeSlots = someInt("free")
		sym.Assume(in.FreeSlots >= 0)
	case 2:
		in.TotalSlots = someInt("total")
		sym.Assume(in.TotalSlots >= 0)
	}
	checkSR(in)
}
