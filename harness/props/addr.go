package props

import (
	"net/url"
	"strings"

	dc "github.com/direct-connect/go-dc"
	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C32", sym.Both, AddrGrid, "all addresses composed of 14 scheme prefixes, 27 hosts, 5 ports, 5 paths, 7 parameter lists: accepted with the expected normal form or refused, by the protocol's function and by the generic one")
	sym.Register("C32", sym.Both, AddrBytes, "22 addresses with one arbitrary byte (thorough: two adjacent ones) at any position, replaced or inserted: printable ASCII in addresses with a zone: known scheme and host, stable normal form, host, port and parameters kept, generic and protocol functions agree")
	sym.Register("C32", sym.Both, AddrShort, "texts of 0..3 (thorough 4) arbitrary bytes, alone, after dchub:// and after adc://: same properties")
}

type addrAPI struct {
	parse     func(string) (*url.URL, error)
	normalize func(string) (string, error)
	schemes   string
}

var addrAPIs = [3]addrAPI{
	{dc.ParseAddr, dc.NormalizeAddr, " dchub nmdcs adc adcs "},
	{adc.ParseAddr, adc.NormalizeAddr, " adc adcs "},
	{nmdc.ParseAddr, nmdc.NormalizeAddr, " dchub nmdcs "},
}

// checkAddr checks what holds for every address.
func checkAddr(addr string) {
	var oks [3]bool
	var norm [3]string
	for i, api := range addrAPIs {
		u, perr := api.parse(addr)
		n, err := api.normalize(addr)
		sym.Observe("accepted", err == nil)
		if perr == nil {
			sym.Assert(u != nil && strings.Contains(api.schemes, " "+u.Scheme+" "), "unknown scheme accepted")
		} else {
			sym.Assert(err != nil, "address normalised but not parsed")
		}
		oks[i], norm[i] = err == nil, n
		if err != nil {
			sym.Assert(n == "", "address and error")
			continue
		}
		sym.Observe("normal form", n)
		sym.Reach("accepted")
		sym.Assert(u.Hostname() != "", "address without host")
		sym.Assert(!strings.HasSuffix(u.Path, "/"), "trailing slash kept")
		v, err := api.parse(n)
		sym.Assert(err == nil, "normal form refused")
		sym.Assert(v.Scheme == u.Scheme, "scheme altered")
		sym.Assert(sym.Eq(v.Host, u.Host), "host or port altered")
		sym.Assert(sym.Eq(v.RawQuery, u.RawQuery), "parameters altered")
		n2, err := api.normalize(n)
		sym.Assert(err == nil, "normal form refused")
		sym.Assert(sym.Eq(n2, n), "normal form is not stable")
	}
	sym.Assert(!oks[1] || !oks[2], "address of both protocols")
	sym.Assert(oks[0] == (oks[1] || oks[2]), "generic function disagrees with the protocol's")
	if oks[1] {
		sym.Assert(sym.Eq(norm[0], norm[1]), "generic normal form differs from ADC's")
	}
	if oks[2] {
		sym.Assert(sym.Eq(norm[0], norm[2]), "generic normal form differs from NMDC's")
	}
	if !oks[0] {
		sym.Reach("refused")
	}
}

var (
	addrSchemes = []struct{ in, out string }{
		{"", "dchub"}, {"dchub://", "dchub"}, {"nmdc://", "dchub"}, {"nmdcs://", "nmdcs"},
		{"adc://", "adc"}, {"adcs://", "adcs"}, {"DCHub://", "dchub"}, {"NMDC://", "dchub"}, {"ADC://", "adc"}, {"AdcS://", "adcs"},
		{"http://", ""}, {"adcx://", ""}, {"://", ""}, {"dchubs://", ""},
	}
	addrHosts = []struct {
		in string
		ok bool
	}{
		{"localhost", true}, {"a.b.example", true}, {"10.0.0.1", true}, {"[::1]", true}, {"[fe80::1%25eth0]", true}, {"Hub.Example", true},
		{"adc.example", true}, {"adcs", true}, {"adc", true}, {"nmdc.example", true}, {"dchub", true}, {"user@h", true}, {"u:p@h", true},
		{"[0:0:0:0:0:0:0:1]", true}, {"[0:0:0:0:0:0:0:1111]", true}, {"[2001:DB8:0:0:1:0:0:1]", true}, {"[::ffff:1.2.3.4]", true}, {"[1111:2222:3333:4444:5555:6666:7777:8888]", true},
		{"hub.example.", true}, {"a_b", true}, {"127.1", true}, {"010.0.0.1", true}, {"xn--bcher-kva.example", true}, {"localhost4", true},
		{strings.Repeat("sub.", 70) + "example", true}, {strings.Repeat("h", 300), true},
		{"", false},
	}
	addrPorts  = []string{"", ":411", ":1", ":65535", ":"}
	addrPaths  = []struct{ in, out string }{{"", ""}, {"/", ""}, {"//", ""}, {"/a", "/a"}, {"/a/b//", "/a/b"}}
	addrParams = []string{"", "?kp=SHA256/AB", "?a=1&b=%20x", "?", "#f", "?b=2&a=1&b=1", "?kp=SHA256/" + strings.Repeat("AB", 150) + "&x"}
)

func AddrGrid() {
	s := addrSchemes[sym.Choose("scheme", len(addrSchemes))]
	h := addrHosts[sym.Choose("host", len(addrHosts))]
	port := addrPorts[sym.Choose("port", len(addrPorts))]
	path := addrPaths[sym.Choose("path", len(addrPaths))]
	param := addrParams[sym.Choose("parameters", len(addrParams))]
	if param == "?" || port == ":" || s.in == "" {
		// texts without a scheme can be read in other ways; see AddrBytes
		checkAddr(s.in + h.in + port + path.in + param)
		if param == "?" || port == ":" || h.in == "u:p@h" {
			return
		}
	}
	addr := s.in + h.in + port + path.in + param
	isADC := s.out == "adc" || s.out == "adcs"
	ok := s.out != "" && h.ok && (!isADC || port != "")
	want := ""
	if ok {
		want = s.out + "://" + h.in + port + path.out + param
	}
	own := nmdc.NormalizeAddr
	other := adc.NormalizeAddr
	if isADC {
		own, other = other, own
	}
	n, err := own(addr)
	sym.Assert((err == nil) == ok, "address accepted")
	sym.Assert(n == want, "normal form")
	g, err := dc.NormalizeAddr(addr)
	sym.Assert((err == nil) == ok && g == n, "generic function disagrees with the protocol's")
	_, err = other(addr)
	sym.Assert(err != nil, "address of another protocol accepted")
	if ok {
		u, err := dc.ParseAddr(addr)
		sym.Assert(err == nil && u.Scheme == s.out && u.Path == path.out, "parsed address")
		sym.Assert(u.Port() == strings.TrimPrefix(port, ":"), "port")
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
}

var addrSamples = []string{
	"dchub://h:411/?kp=a", "adc://h:1511", "h", "adcs://[::1]:1/a/?k=v#f", "a.b:411", "nmdc://h/", "adc.ex:1", "adc:411", "ADC://h:1", "nmdcs://u@h", "h/%2F", "adc://h%41:1/%2f/",
	"dchub://h?u=adc://x", "adc://?a", "h#", "[::]:411", "adc:h", "//h", "adc://h:1/a%2Fb/", "dchub://[::1%25e]", "adc://[0:0:0:0:0:0:0:1]:1", "dchub://h?b=1&a=2",
}

func AddrBytes() {
	s := addrSamples[sym.Choose("address", len(addrSamples))]
	p := sym.Choose("at", len(s)+1)
	var b []byte
	b = append(b, s[:p]...)
	b = append(b, sym.Bytes("byte", 1+sym.Choose("more", sym.Bound(1, 2)))...)
	if strings.Contains(s, "%25") {
		// net/url does not read back every zone it writes
		for _, c := range b[p:] {
			sym.Assume(sym.And(c >= 0x20, c < 0x7f))
		}
	}
	rest := s[p:]
	if len(rest) > 0 && sym.Choose("insert", 2) == 0 {
		rest = rest[1:]
	}
	b = append(b, rest...)
	checkAddr(string(b))
}

func AddrShort() {
	s := []string{"", "dchub://", "adc://"}[sym.Choose("prefix", 3)] + sym.Str("text", sym.Bound(3, 4))
	checkAddr(s)
}
