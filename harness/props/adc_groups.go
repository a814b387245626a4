package props

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/adc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C33", sym.Both, GroupAny, "names with an extension of 0..3 (thorough 4) arbitrary ASCII bytes, with and without a stem, and all sets of groups: matched exactly by the table of the SEGA extension, in any case")
	sym.Register("C33", sym.Both, GroupKnown, "every extension of the table and every neighbour of it (one byte replaced by an arbitrary one, inserted or removed), upper and lower case, four stems, all sets of groups")
	sym.Register("C33", sym.Both, GroupWide, "every extension of the table with one character replaced by or followed by one of 14 characters outside of ASCII (look-alikes, those with unusual case rules, a broken one), and every set of groups: of no group")
	sym.Register("C33", sym.Both, GroupWire, "search requests with every set of groups, 0..2 excluded and wanted extensions of 0..2 (thorough 3) arbitrary bytes: the set is preserved and sent as one GR field")
}

// segaTable is the table of the SEGA extension.
var segaTable = [6]string{
	"ape flac m4a mid mp3 mpc ogg ra wav wma",
	"7z ace arj bz2 gz lha lzh rar tar tz z zip",
	"doc docx htm html nfo odf odp ods odt pdf ppt pptx rtf txt xls xlsx xml xps",
	"app bat cmd com dll exe jar msi ps1 vbs wsf",
	"bmp cdr eps gif ico img jpeg jpg png ps psd sfw tga tif webp",
	"3gp asf asx avi divx flv mkv mov mp4 mpeg mpg ogm pxp qt rm rmvb swf vob webm wmv",
}

type segaExt struct {
	ext   string
	group adc.ExtGroup
}

func segaExts() (out []segaExt) {
	for i, l := range segaTable {
		for _, e := range strings.Split(l, " ") {
			out = append(out, segaExt{e, 1 << uint(i)})
		}
	}
	return out
}

func lowEq(c, l byte) bool {
	if l >= 'a' && l <= 'z' {
		return sym.Or(c == l, c == l-32)
	}
	return c == l
}

// groupOf is the group of an extension without dots.
func groupOf(ext string) adc.ExtGroup {
	for _, e := range segaExts() {
		if len(e.ext) != len(ext) {
			continue
		}
		eq := true
		for i := 0; i < len(ext); i++ {
			eq = sym.And(eq, lowEq(ext[i], e.ext[i]))
		}
		if eq {
			return e.group
		}
	}
	return 0
}

var stems = []string{"", "a.", ".", "dir.zip/x.tar."}

func checkGroup(stem, ext string) {
	g := adc.ExtGroup(sym.IntRange("groups", 0, 63))
	want := groupOf(ext)
	got := g.Matches(stem + ext)
	sym.Observe("match", got)
	sym.Assert(got == sym.Or(g == 0, g&want != 0), "match of a file name")
	if want != 0 {
		sym.Assert(g.Has(want) == (g&want != 0), "Has")
		sym.Reach("known")
	}
	sym.Reach("compared")
}

func GroupAny() {
	ext := sym.StrN("ext", 0, sym.Bound(3, 4))
	for i := 0; i < len(ext); i++ {
		sym.Assume(sym.And(ext[i] < 0x80, ext[i] != '.'))
	}
	checkGroup(stems[sym.Choose("stem", 2)], ext)
}

func GroupKnown() {
	l := segaExts()
	ext := []byte(l[sym.Choose("ext", len(l))].ext)
	p := sym.Choose("at", 5)
	if p > len(ext) {
		p = len(ext)
	}
	switch sym.Choose("change", 4) {
	case 0:
		if p < len(ext) {
			ext[p] = sym.Byte("byte")
		}
	case 1:
		ext = append(ext[:p:p], append([]byte{sym.Byte("byte")}, ext[p:]...)...)
	case 2:
		if p < len(ext) {
			ext = append(ext[:p:p], ext[p+1:]...)
		}
	case 3:
		ext = bytes.ToUpper(ext)
	}
	for _, c := range ext {
		sym.Assume(sym.And(c < 0x80, c != '.'))
	}
	checkGroup(stems[sym.Choose("stem", len(stems))], string(ext))
}

// wideChars are characters outside of ASCII; strings.ToLower, which the code
// may use, maps two others (the signs of Kelvin and the dotted I) to ASCII.
var wideChars = [...]string{"\u017f", "\u00df", "\u00e9", "\u0131", "\u00b5", "\uff41", "\uff30", "\u0430", "\u0440", "\u2170", "\u00c5", "\ufb00", "\xff", "\U0001d45d"}

func GroupWide() {
	l := segaExts()
	e := l[sym.Choose("ext", len(l))]
	p := sym.Choose("at", len(e.ext)+1)
	w := wideChars[sym.Choose("wide", len(wideChars))]
	ext := e.ext[:p] + w
	if p < len(e.ext) {
		ext += e.ext[p+1:]
	}
	if sym.Choose("upper", 2) == 1 {
		ext = string(bytes.ToUpper([]byte(e.ext[:p]))) + w
		if p < len(e.ext) {
			ext += string(bytes.ToUpper([]byte(e.ext[p+1:])))
		}
	}
	g := adc.ExtGroup(sym.IntRange("groups", 0, 63))
	got := g.Matches(stems[sym.Choose("stem", 2)] + ext)
	sym.Assert(got == (g == 0), "match of a file name")
	sym.Reach("compared")
}

func GroupWire() {
	n := sym.Bound(2, 3)
	in := adc.SearchRequest{Token: "t", Group: adc.ExtGroup(sym.IntRange("groups", 0, 63)), And: []string{"GR7"}}
	ext := func(name string) (l []string) {
		k := sym.Choose(name+" count", 3)
		for i := 0; i < k; i++ {
			s := sym.StrN(name, 0, n-i)
			sym.None(s, "\x00")
			l = append(l, s)
		}
		return l
	}
	if sym.Choose("list", 2) == 0 {
		in.Ext = ext("wanted")
	} else {
		in.NoExt = ext("excluded")
	}
	buf := bytes.NewBuffer(nil)
	sym.Assert(adc.Marshal(buf, in) == nil, "search refused by the encoder")
	fields := 0
	for _, w := range splitWords(buf.Bytes()) {
		if len(w) >= 2 && w[0] == 'G' && w[1] == 'R' {
			v, err := strconv.Atoi(string(w[2:]))
			sym.Assert(err == nil && adc.ExtGroup(v) == in.Group, "groups on the wire")
			fields++
		}
	}
	sym.Assert(fields == 1 || fields == 0 && in.Group == 0, "number of group fields")
	m, err := adc.UnmarshalMessage(msgType("SCH"), buf.Bytes())
	sym.Assert(err == nil, "encoded search refused")
	out := m.(adc.SearchRequest)
	sym.Assert(out.Group == in.Group, "set of groups altered")
	sym.Assert(sameList(out.Ext, in.Ext), "wanted extensions altered")
	sym.Assert(sameList(out.NoExt, in.NoExt), "excluded extensions altered")
	sym.Assert(sameList(out.And, in.And), "words altered")
	sym.Assert(out.Group.Matches("x.mp3") == sym.Or(in.Group == 0, in.Group&adc.ExtAudio != 0), "filter of the decoded search")
	sym.Reach("trip")
}
