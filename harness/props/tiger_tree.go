package props

import (
	"bytes"
	"errors"
	"io"

	"github.com/direct-connect/go-dc/tiger"

	"verif/harness/sym"
)

func init() {
	sym.Register("C29", sym.Both, TreeSizes, "data of 16 sizes around multiples of 1024 up to 9 leaves (thorough: 40 sizes, up to 33 leaves), the first and last byte of every leaf arbitrary, whole reads: TreeHash and TreeLeaves equal the recursive definition, the leaves are kept")
	sym.Register("C29", sym.Both, TreeEverySize, "every size from 0 to 3327 (thorough 10239), whole reads, first and last byte of every leaf arbitrary: TreeHash and TreeLeaves equal the recursive definition")
	sym.Register("C29", sym.Both, TreeReads, "data of 9 (thorough 13) sizes around 0, 1024, 2048 and 3072 delivered in reads of which any 2 (thorough 3) consecutive ones are short (0, 1, half, all but one byte), the last data with or before io.EOF: same result")
	sym.Register("C29", sym.Both, TreeFailure, "a source that fails after 0..3 leaves and 0, 1 or 1023 bytes, alone or together with data, with any error but io.EOF: the error is reported")
	sym.Register("C29", sym.Both, TreeOfLeaves, "1..12 (thorough 40) leaves of hashes (up to 6: any hashes; more: any first and last byte): root equal to the recursive definition; the leaves unchanged; twice the same root")
	sym.Register("C29", sym.Both, HashOfBytes, "data of 0..5 arbitrary bytes: HashBytes is the hash of exactly these bytes, also in pieces through New")
}

// refTree is the Merkle tree by its recursive definition.
func refTree(leaves []tiger.Hash) tiger.Hash {
	if len(leaves) == 1 {
		return leaves[0]
	}
	k := 1
	for 2*k < len(leaves) {
		k *= 2
	}
	l, r := refTree(leaves[:k]), refTree(leaves[k:])
	node := append([]byte{1}, l[:]...)
	return tiger.HashBytes(append(node, r[:]...))
}

func refLeaves(data []byte) (out []tiger.Hash) {
	for {
		n := len(data)
		if n > 1024 {
			n = 1024
		}
		out = append(out, tiger.HashBytes(append([]byte{0}, data[:n]...)))
		data = data[n:]
		if len(data) == 0 {
			return out
		}
	}
}

// treeData has arbitrary bytes at the ends of every leaf.
func treeData(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i/1024) ^ byte(i*7)
		if i%1024 == 0 || i%1024 == 1023 || i == n-1 {
			b[i] = sym.Byte("data")
		}
	}
	return b
}

func checkTree(data []byte, src func() io.Reader) {
	leaves := refLeaves(data)
	root := refTree(leaves)
	switch sym.Choose("api", 2) {
	case 0:
		got, err := tiger.TreeHash(src())
		sym.Assert(err == nil, "tree hash failed")
		sym.Assert(sym.EqB(got[:], root[:]), "root differs")
		sym.Observe("root", got[:])
	case 1:
		lv, err := tiger.TreeLeaves(src())
		sym.Assert(err == nil, "tree leaves failed")
		sym.Assert(len(lv) == len(leaves), "number of leaves")
		for i := range lv {
			sym.Assert(sym.EqB(lv[i][:], leaves[i][:]), "leaf differs")
		}
		got := lv.TreeHash()
		sym.Assert(sym.EqB(got[:], root[:]), "root of the leaves differs")
		for i := range lv {
			sym.Assert(sym.EqB(lv[i][:], leaves[i][:]), "leaf changed by computing the root")
		}
		sym.Observe("root", got[:])
	}
	sym.Reach("compared")
}

var treeSizes = []int{
	0, 1, 2, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 3073, 4096, 4097, 5 * 1024, 7*1024 - 1, 8*1024 + 1,
	3, 511, 512, 1022, 1026, 2046, 2050, 3071, 4095, 5119, 5121, 6 * 1024, 6*1024 + 1, 7 * 1024, 7*1024 + 1,
	8*1024 - 1, 8 * 1024, 9 * 1024, 9*1024 + 5, 11*1024 + 3, 15 * 1024, 16*1024 + 1, 24 * 1024, 32*1024 + 1,
}

func TreeSizes() {
	data := treeData(treeSizes[sym.Choose("size", sym.Bound(16, len(treeSizes)))])
	checkTree(data, func() io.Reader { return bytes.NewReader(data) })
}

func TreeEverySize() {
	n := 256*sym.Choose("block", sym.Bound(13, 40)) + sym.Fork(sym.IntRange("size", 0, 255))
	data := treeData(n)
	checkTree(data, func() io.Reader { return bytes.NewReader(data) })
}

// shortReads delivers data with a few short reads.
type shortReads struct {
	data []byte
	skip int // whole reads first
	odd  int // short reads after that
	end  error
	with bool // the last data comes with end
}

func (r *shortReads) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.end
	}
	n := len(r.data)
	if n > len(p) {
		n = len(p)
	}
	if r.skip > 0 {
		r.skip--
	} else if r.odd > 0 {
		r.odd--
		n = []int{n, 0, 1, n / 2, n - 1}[sym.Choose("read", 5)]
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.with {
		return n, r.end
	}
	return n, nil
}

func TreeReads() {
	sizes := []int{0, 1, 2, 1023, 1024, 1025, 2048, 2049, 3073, 5, 2047, 3072, 4096}
	data := treeData(sizes[sym.Choose("size", sym.Bound(9, 13))])
	skip := sym.Choose("skip", 4)
	with := sym.Choose("with", 2) == 1
	checkTree(data, func() io.Reader {
		return &shortReads{data: data, skip: skip, odd: sym.Bound(2, 3), end: io.EOF, with: with}
	})
}

func TreeFailure() {
	bad := errors.New("bad source")
	if sym.Choose("error", 2) == 1 {
		bad = io.ErrUnexpectedEOF
	}
	data := treeData(sym.Choose("leaves", 4)*1024 + []int{0, 1, 1023}[sym.Choose("rest", 3)])
	r := &shortReads{data: data, skip: sym.Choose("skip", 3), odd: 2, end: bad, with: sym.Choose("with", 2) == 1}
	var err error
	if sym.Choose("api", 2) == 0 {
		_, err = tiger.TreeHash(r)
	} else {
		_, err = tiger.TreeLeaves(r)
	}
	sym.Assert(err == bad, "read failure lost")
	sym.Reach("failed")
}

func TreeOfLeaves() {
	n := 1 + sym.Choose("leaves", sym.Bound(12, 40))
	var lv tiger.Leaves
	for i := 0; i < n; i++ {
		h := sampleHash(byte(i))
		h[0], h[23] = sym.Byte("leaf"), sym.Byte("leaf")
		if n <= 6 {
			copy(h[:], sym.Bytes("whole", tiger.Size))
		}
		lv = append(lv, h)
	}
	keep := append([]tiger.Hash(nil), lv...)
	root := refTree(keep)
	for k := 0; k < 2; k++ {
		got := lv.TreeHash()
		sym.Assert(sym.EqB(got[:], root[:]), "root differs")
		sym.Assert(len(lv) == len(keep), "number of leaves changed")
		for i := range lv {
			sym.Assert(sym.EqB(lv[i][:], keep[i][:]), "leaf changed")
		}
	}
	sym.Reach("compared")
}

func HashOfBytes() {
	data := sym.Bytes("data", sym.Choose("n", 6))
	h := tiger.New()
	k := sym.Choose("cut", len(data)+1)
	h.Write(data[:k])
	h.Write(data[k:])
	want := h.Sum(nil)
	got := tiger.HashBytes(data)
	sym.Assert(len(want) == tiger.Size && sym.EqB(got[:], want), "hash of the bytes")
	sym.Assert(h.Size() == tiger.Size, "size")
	sym.Reach("hashed")
}
