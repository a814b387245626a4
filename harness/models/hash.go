package models

import (
	"hash"
)

// uf is an uninterpreted function of its input; the engine intercepts it.
func uf(name string, data []byte, n int) []byte { panic("not native") }

type bufHash struct {
	name string
	size int
	buf  []byte
}

func (h *bufHash) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *bufHash) Sum(b []byte) []byte         { return append(b, uf(h.name, h.buf, h.size)...) }
func (h *bufHash) Reset()                      { h.buf = nil }
func (h *bufHash) Size() int                   { return h.size }
func (h *bufHash) BlockSize() int              { return 64 }

// TigerNew stands for github.com/cxmcc/tiger.New.
func TigerNew() hash.Hash { return &bufHash{name: "tiger", size: 24} }

// Sha256Sum stands for crypto/sha256.Sum256.
func Sha256Sum(data []byte) [32]byte {
	var r [32]byte
	copy(r[:], uf("sha256", data, 32))
	return r
}

// Sha256New stands for crypto/sha256.New.
func Sha256New() hash.Hash { return &bufHash{name: "sha256", size: 32} }
