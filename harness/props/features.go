package props

import (
	"bytes"
	"sort"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C25", sym.Both, ModAlgebra, "two feature maps over 2 (thorough 3) names each, one byte of every name arbitrary so that they may coincide, each name added, removed or absent, maps nil or not: Clone, IsSet, Intersect, SetFrom and Join follow the set definitions and leave their inputs alone")
	sym.Register("C25", sym.Both, ModText, "a feature map of up to 3 (thorough 4) names in any state: the wire form names each exactly once with AD or RM and is read back, into an empty map and over one of 2 names")
	sym.Register("C25", sym.Both, ModWords, "feature commands of 1..2 (thorough 3) words with any prefix of AD, RM, XX and a name of 3..5 arbitrary bytes: read as stated, refused when a name is not of four bytes")
	sym.Register("C25", sym.Both, AddText, "additions of 0..3 (thorough 4) features with arbitrary letters and digits behind earlier data: the words of the wire, read back as a feature map with exactly these set")
	sym.Register("C25", sym.Both, FeatureNames, "the 25 known ADC features and the 37 NMDC extensions: each is its own word of the protocol, on the wire and in a set that is read back with an arbitrary one of them removed")
	sym.Register("C25", sym.Both, ListText, "feature lists of 0..3 (thorough 4) names with arbitrary bytes: Has and the comma separated form; read back over an empty or another list")
	sym.Register("C25", sym.Both, ListWords, "texts of 0..11 (thorough 14) arbitrary bytes: read as a list exactly when every comma separated part has four bytes")
	sym.Register("C25", sym.Both, NMDCSets, "two sets of up to 2 (thorough 3) extension names of 1..2 arbitrary bytes: Set, Has, Clone, Intersect, IntersectList, List and the intersection of Supports lists follow the set definitions and leave their inputs alone")
}

func feature(name string) adc.Feature {
	return adc.Feature{'F', sym.Byte(name), 'A', '0'}
}

type modEntry struct {
	f   adc.Feature
	add bool
}

// modMap builds a map with up to n entries and the list of what was put into it.
func modMap(name string, n int) (adc.ModFeatures, []modEntry) {
	m := make(adc.ModFeatures)
	var es []modEntry
	k := sym.Choose(name+" size", n+1)
	if k == 0 && sym.Choose(name+" nil", 2) == 1 {
		m = nil
	}
	for i := 0; i < k; i++ {
		e := modEntry{feature(name), sym.Choose(name+" add", 2) == 1}
		for _, x := range es {
			sym.Assume(x.f[1] != e.f[1])
		}
		m[e.f] = e.add
		es = append(es, e)
	}
	return m, es
}

// state is 0 for absent, 1 for removed, 2 for added.
func state(es []modEntry, f adc.Feature) int {
	for _, e := range es {
		if e.f == f {
			if e.add {
				return 2
			}
			return 1
		}
	}
	return 0
}

func mapState(m adc.ModFeatures, f adc.Feature) int {
	v, ok := m[f]
	switch {
	case !ok:
		return 0
	case v:
		return 2
	}
	return 1
}

// sameMod asserts that m holds exactly es.
func sameMod(m adc.ModFeatures, es []modEntry, msg string) {
	sym.Assert(len(m) == len(es), msg)
	for _, e := range es {
		sym.Assert(mapState(m, e.f) == state(es, e.f), msg)
	}
}

func ModAlgebra() {
	n := sym.Bound(2, 3)
	a, ea := modMap("a", n)
	op := sym.Choose("op", 6)
	switch op {
	case 0:
		c := a.Clone()
		sameMod(c, ea, "clone differs")
		x := feature("x")
		was := state(ea, x)
		c[x] = was != 2
		sameMod(a, ea, "clone shares the map")
		for _, e := range ea {
			delete(c, e.f)
		}
		sameMod(a, ea, "clone shares the map")
		sym.Reach("clone")
	case 1:
		x := feature("x")
		st := state(ea, x)
		sym.Assert(a.IsSet(x) == (st == 2), "IsSet")
		sameMod(a, ea, "input changed")
		sym.Reach("member")
	case 2:
		j := a.Join()
		var names []string
		for _, e := range ea {
			if e.add {
				names = append(names, string(e.f[:]))
			}
		}
		sym.Assert(len(j) == max(5*len(names)-1, 0), "names joined")
		for _, s := range names {
			found := false
			for i := 0; i+4 <= len(j); i += 5 {
				found = sym.Or(found, sym.Eq(j[i:i+4], s))
				sym.Assert(i+4 == len(j) || j[i+4] == ',', "separator")
			}
			sym.Assert(found, "member missing in the text")
		}
		sameMod(a, ea, "input changed")
		sym.Reach("join")
	case 3, 4:
		b, eb := modMap("b", n)
		r := a.Intersect(b)
		if op == 4 {
			r = b.Intersect(a)
		}
		var want []modEntry
		for _, e := range ea {
			if e.add && state(eb, e.f) == 2 {
				want = append(want, e)
			}
		}
		sameMod(r, want, "intersection")
		sameMod(a, ea, "input changed")
		sameMod(b, eb, "input changed")
		if r != nil {
			r[feature("x")] = true
			sameMod(a, ea, "intersection shares the map")
			sameMod(b, eb, "intersection shares the map")
		}
		sym.Reach("intersect")
	case 5:
		b, eb := modMap("b", n)
		r := a.SetFrom(b)
		want := append([]modEntry(nil), eb...)
		for _, e := range ea {
			if state(eb, e.f) == 0 {
				want = append(want, e)
			}
		}
		sameMod(r, want, "merge")
		sameMod(a, ea, "input changed")
		sameMod(b, eb, "input changed")
		if r != nil {
			r[feature("x")] = true
			sameMod(a, ea, "merge shares the map")
			sameMod(b, eb, "merge shares the map")
		}
		sym.Reach("merge")
	}
}

func ModText() {
	a, ea := modMap("a", sym.Bound(3, 4))
	for _, e := range ea {
		sym.Assume(sym.OneOf(e.f[1], "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"))
	}
	buf := bytes.NewBuffer(nil)
	sym.Assert(adc.Marshal(buf, adc.Supported{Features: a}) == nil, "feature set refused")
	w := buf.Bytes()
	sym.Assert(len(w) == max(7*len(ea)-1, 0), "length of the wire form")
	for _, e := range ea {
		pre := "RM"
		if e.add {
			pre = "AD"
		}
		found := false
		for i := 0; i+6 <= len(w); i += 7 {
			sym.Assert(i+6 == len(w) || w[i+6] == ' ', "separator")
			found = sym.Or(found, sym.EqB(w[i:i+6], append([]byte(pre), e.f[:]...)))
		}
		sym.Assert(found, "member missing in the wire form")
	}
	var out adc.Supported
	var eo []modEntry
	if sym.Choose("old", 2) == 1 {
		x, y := adc.Feature{'F', 'X', 'A', '0'}, adc.Feature{'F', 'Y', 'A', '0'}
		out.Features = adc.ModFeatures{x: true, y: false}
		eo = []modEntry{{x, true}, {y, false}}
	}
	sym.Assert(adc.Unmarshal(w, &out) == nil, "encoded feature set refused")
	want := append([]modEntry(nil), ea...)
	for _, e := range eo {
		if state(ea, e.f) == 0 {
			want = append(want, e)
		}
	}
	sameMod(out.Features, want, "feature set altered")
	sym.Reach("trip")
}

func ModWords() {
	n := 1 + sym.Choose("words", sym.Bound(2, 3))
	var w []byte
	ok := true
	var es []modEntry
	for i := 0; i < n; i++ {
		if i > 0 {
			w = append(w, ' ')
		}
		p := sym.Choose("prefix", 3)
		w = append(w, []string{"AD", "RM", "XX"}[p]...)
		l := 3 + sym.Choose("length", 3)
		name := []byte("FABCD")[:l]
		name[i%3] = sym.Byte("name")
		c := name[i%3]
		sym.Assume(sym.And(sym.And(c != ' ', c != '\\'), sym.And(c != '\n', c != 0)))
		w = append(w, name...)
		if p == 2 {
			continue
		}
		if l != 4 {
			ok = false
			continue
		}
		var f adc.Feature
		copy(f[:], name)
		for _, e := range es {
			sym.Assume(e.f != f)
		}
		es = append(es, modEntry{f, p == 0})
	}
	var m adc.ModFeatures
	err := m.UnmarshalADC(w)
	sym.Assert((err == nil) == ok, "names of four bytes, and only those")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sameMod(m, es, "feature set")
	sym.Reach("read")
}

func ListText() {
	k := sym.Choose("count", sym.Bound(4, 5))
	var in adc.ExtFeatures
	var want []byte
	for i := 0; i < k; i++ {
		f := adc.Feature(someSID("feature"))
		for _, c := range f {
			sym.Assume(sym.And(c != ',', c != '\\'))
		}
		in = append(in, f)
		if i > 0 {
			want = append(want, ',')
		}
		want = append(want, f[:]...)
	}
	x := adc.Feature(someSID("x"))
	has := false
	for _, f := range in {
		has = sym.Or(has, sym.EqB(f[:], x[:]))
	}
	sym.Assert(in.Has(x) == has, "Has")
	buf := bytes.NewBuffer(nil)
	sym.Assert(in.MarshalADC(buf) == nil, "list refused")
	sym.Assert(sym.EqB(buf.Bytes(), want), "comma separated form")
	var out adc.ExtFeatures
	if sym.Choose("old", 2) == 1 {
		out = adc.ExtFeatures{{'O', 'L', 'D', '0'}, {'O', 'L', 'D', '1'}}
	}
	sym.Assert(out.UnmarshalADC(buf.Bytes()) == nil, "encoded list refused")
	sym.Assert(len(out) == len(in), "list altered")
	for i := range in {
		sym.Assert(sym.EqB(out[i][:], in[i][:]), "list altered")
	}
	sym.Reach("trip")
}

func ListWords() {
	s := sym.Bytes("text", sym.Choose("n", sym.Bound(12, 15)))
	var out adc.ExtFeatures
	err := out.UnmarshalADC(s)
	ok := len(s)%5 == 4
	if len(s) == 0 {
		sym.Assert(err == nil && len(out) == 0, "empty list")
		return
	}
	for i, c := range s {
		ok = sym.And(ok, (c == ',') == (i%5 == 4))
	}
	if err != nil {
		sym.Assert(sym.Not(ok), "list refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(ok, "wrong list accepted")
	sym.Assert(len(out) == (len(s)+1)/5, "number of features")
	for i := range out {
		sym.Assert(sym.EqB(out[i][:], s[5*i:5*i+4]), "feature")
	}
	sym.Reach("accepted")
}

func extNames(name string, n int) []string {
	k := sym.Choose(name+" size", n+1)
	var out []string
	for i := 0; i < k; i++ {
		s := sym.StrN(name, 1, sym.Bound(2, 1))
		for _, x := range out {
			sym.Assume(sym.Not(sym.Eq(x, s)))
		}
		out = append(out, s)
	}
	return out
}

func has(l []string, s string) bool {
	r := false
	for _, x := range l {
		r = sym.Or(r, sym.Eq(x, s))
	}
	return r
}

func sameExt(e nmdc.Extensions, l []string, msg string) {
	sym.Assert(len(e) == len(l), msg)
	for _, s := range l {
		sym.Assert(e.Has(s), msg)
	}
}

func NMDCSets() {
	n := sym.Bound(2, 3)
	la, lb := extNames("a", n), extNames("b", n)
	a, b := make(nmdc.Extensions), make(nmdc.Extensions)
	for _, s := range la {
		a.Set(s)
	}
	for _, s := range lb {
		b.Set(s)
	}
	sameExt(a, la, "Set")
	var common []string
	for _, s := range la {
		if has(lb, s) {
			common = append(common, s)
		}
	}
	var r nmdc.Extensions
	switch sym.Choose("op", 6) {
	case 0:
		x := sym.StrN("x", 0, 2)
		sym.Assert(a.Has(x) == has(la, x), "Has")
		return
	case 1:
		r = a.Intersect(b)
		sameExt(r, common, "intersection")
	case 2:
		r = a.IntersectList(append(append([]string(nil), lb...), lb...))
		sameExt(r, common, "intersection with a list")
	case 3:
		r = a.Clone()
		sameExt(r, la, "clone")
		for _, s := range la {
			delete(r, s)
		}
	case 4:
		l := a.List()
		sym.Assert(len(l) == len(la), "list")
		for i, s := range la {
			sym.Assert(has(l, s), "list")
			if i > 0 {
				sym.Assert(sort.SearchStrings(l, l[i]) == i && strings.Compare(l[i-1], l[i]) < 0, "list is not sorted")
			}
		}
		sym.Reach("list")
		sameExt(a, la, "input changed")
		return
	case 5:
		sa, sb := &nmdc.Supports{Ext: la}, &nmdc.Supports{Ext: lb}
		got := sa.Intersect(sb)
		sym.Assert(len(got.Ext) == len(common), "intersection of lists")
		for _, s := range common {
			sym.Assert(has(got.Ext, s), "intersection of lists")
		}
		sym.Assert(len(sa.Ext) == len(la) && len(sb.Ext) == len(lb), "input changed")
		sym.Reach("supports")
		return
	}
	r.Set("other")
	sameExt(a, la, "input changed")
	sameExt(b, lb, "input changed")
	sym.Reach("set")
}

func AddText() {
	n := sym.Choose("count", sym.Bound(4, 5))
	var in adc.AddFeatures
	var fs []adc.Feature
	want := []byte("x")
	for i := 0; i < n; i++ {
		f := adc.Feature{byte('A' + i), featureByte("feature"), featureByte("feature"), featureByte("feature")}
		fs = append(fs, f)
		in = append(in, string(f[:]))
		if i > 0 {
			want = append(want, ' ')
		}
		want = append(append(want, "AD"...), f[:]...)
	}
	buf := bytes.NewBufferString("x")
	sym.Assert(in.MarshalADC(buf) == nil, "features refused")
	sym.Assert(sym.EqB(buf.Bytes(), want), "wire form")
	m := adc.ModFeatures{}
	sym.Assert(m.UnmarshalADC(buf.Bytes()[1:]) == nil || n == 0, "wire form refused")
	for _, f := range fs {
		sym.Assert(m.IsSet(f), "feature not set")
	}
	sym.Assert(len(m) == n, "number of features")
	sym.Reach("added")
}

var adcFeatures = []struct {
	fea  adc.Feature
	name string
}{
	{adc.FeaBASE, "BASE"},
	{adc.FeaBAS0, "BAS0"},
	{adc.FeaTIGR, "TIGR"},
	{adc.FeaPING, "PING"},
	{adc.FeaONID, "ONID"},
	{adc.FeaBZIP, "BZIP"},
	{adc.FeaTS, "TS00"},
	{adc.FeaZLIF, "ZLIF"},
	{adc.FeaZLIG, "ZLIG"},
	{adc.FeaSEGA, "SEGA"},
	{adc.FeaUCMD, "UCMD"},
	{adc.FeaUCM0, "UCM0"},
	{adc.FeaADCS, "ADCS"},
	{adc.FeaADC0, "ADC0"},
	{adc.FeaNAT0, "NAT0"},
	{adc.FeaASCH, "ASCH"},
	{adc.FeaSUD1, "SUD1"},
	{adc.FeaSUDP, "SUDP"},
	{adc.FeaCCPM, "CCPM"},
	{adc.FeaBLO0, "BLO0"},
	{adc.FeaSIPR, "SIPR"},
	{adc.FeaTCP4, "TCP4"},
	{adc.FeaTCP6, "TCP6"},
	{adc.FeaUDP4, "UDP4"},
	{adc.FeaUDP6, "UDP6"},
}

var nmdcExts = []struct{ ext, name string }{
	{nmdc.ExtNoHello, "NoHello"},
	{nmdc.ExtNoGetINFO, "NoGetINFO"},
	{nmdc.ExtUserCommand, "UserCommand"},
	{nmdc.ExtUserIP2, "UserIP2"},
	{nmdc.ExtTTHSearch, "TTHSearch"},
	{nmdc.ExtZPipe0, "ZPipe0"},
	{nmdc.ExtTLS, "TLS"},
	{nmdc.ExtADCGet, "ADCGet"},
	{nmdc.ExtBotINFO, "BotINFO"},
	{nmdc.ExtHubINFO, "HubINFO"},
	{nmdc.ExtHubTopic, "HubTopic"},
	{nmdc.ExtBotList, "BotList"},
	{nmdc.ExtIN, "IN"},
	{nmdc.ExtMCTo, "MCTo"},
	{nmdc.ExtNickChange, "NickChange"},
	{nmdc.ExtClientNick, "ClientNick"},
	{nmdc.ExtFeaturedNetworks, "FeaturedNetworks"},
	{nmdc.ExtGetZBlock, "GetZBlock"},
	{nmdc.ExtClientID, "ClientID"},
	{nmdc.ExtXmlBZList, "XmlBZList"},
	{nmdc.ExtMinislots, "Minislots"},
	{nmdc.ExtTTHL, "TTHL"},
	{nmdc.ExtTTHF, "TTHF"},
	{nmdc.ExtTTHS, "TTHS"},
	{nmdc.ExtZLIG, "ZLIG"},
	{nmdc.ExtACTM, "ACTM"},
	{nmdc.ExtBZList, "BZList"},
	{nmdc.ExtSaltPass, "SaltPass"},
	{nmdc.ExtDHT0, "DHT0"},
	{nmdc.ExtFailOver, "FailOver"},
	{nmdc.ExtOpPlus, "OpPlus"},
	{nmdc.ExtQuickList, "QuickList"},
	{nmdc.ExtBanMsg, "BanMsg"},
	{nmdc.ExtNickRule, "NickRule"},
	{nmdc.ExtSearchRule, "SearchRule"},
	{nmdc.ExtExtJSON2, "ExtJSON2"},
	{nmdc.ExtLocale, "Locale"},
}

func FeatureNames() {
	if sym.Choose("nmdc", 2) == 1 {
		k := sym.IntRange("removed", 0, len(nmdcExts)-1)
		var l []string
		for i, e := range nmdcExts {
			sym.Assert(e.ext == e.name, "not the word of the protocol")
			if i != k {
				l = append(l, e.ext)
			}
		}
		out := nTrip(&nmdc.Supports{Ext: l}).(*nmdc.Supports)
		for i, e := range nmdcExts {
			n := 0
			for _, x := range out.Ext {
				if x == e.name {
					n++
				}
			}
			sym.Assert(n == 1 && i != k || n == 0 && i == k, "extension list")
		}
		sym.Reach("nmdc")
		return
	}
	k := sym.IntRange("removed", 0, len(adcFeatures)-1)
	in := adc.Supported{Features: adc.ModFeatures{}}
	for i, e := range adcFeatures {
		sym.Assert(e.fea.String() == e.name, "not the word of the protocol")
		in.Features[e.fea] = i != k
	}
	out := aTrip(in).(adc.Supported)
	for i, e := range adcFeatures {
		var f adc.Feature
		copy(f[:], e.name)
		sym.Assert(out.Features.IsSet(f) == (i != k), "feature set")
	}
	sym.Assert(len(out.Features) == len(adcFeatures), "features coincide")
	sym.Reach("adc")
}
