// Package ref is an independent, deliberately plain implementation of XMSS and
// XMSS^MT as specified in RFC 8391 and NIST SP 800-208, generalised to the
// other n and w the library offers.  It shares no code with the library: the
// checks use it as their oracle.
package ref

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha3"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"io"
)

const (
	SHA2 = iota
	SHAKE
	SHAKE256
)

// Params of an instance.
type Params struct {
	Func int
	N    int
	H    int // full height
	D    int
	W    int
	NIST bool // 4-byte domain separator instead of an n-byte one
}

func (p Params) String() string {
	prf := "rfc"
	if p.NIST {
		prf = "nist"
	}
	return fmt.Sprintf("%s/n%d/h%d/d%d/w%d/%s",
		[]string{"sha2", "shake", "shake256"}[p.Func], p.N, p.H, p.D, p.W, prf)
}

// TH is the height of one subtree.
func (p Params) TH() int { return p.H / p.D }

// LogW is lg(w).
func (p Params) LogW() int {
	l := 0
	for 1<<l < p.W {
		l++
	}
	return l
}

// Len1 is the number of digits of a digest.
func (p Params) Len1() int { return (8*p.N + p.LogW() - 1) / p.LogW() }

// Len2 is the number of digits of the checksum: floor(lg(len1*(w-1))/lg(w))+1.
func (p Params) Len2() int {
	l, max := 0, p.Len1()*(p.W-1)
	for max > 0 {
		max /= p.W
		l++
	}
	return l
}

// Len is the number of chains.
func (p Params) Len() int { return p.Len1() + p.Len2() }

// IndexBytes is the length of the index in a signature.
func (p Params) IndexBytes() int {
	if p.D == 1 {
		return 4
	}
	return (p.H + 7) / 8
}

// WotsBytes is the length of a one-time signature.
func (p Params) WotsBytes() int { return p.Len() * p.N }

// SigBytes is the length of a signature (without the parameter prefix).
func (p Params) SigBytes() int {
	return p.IndexBytes() + p.N + p.D*p.WotsBytes() + p.H*p.N
}

// Max is the number of leaves minus one.  The library reserves the last leaf:
// it signs the indices 0 ... Max()-1.
func (p Params) Max() uint64 { return 1<<uint(p.H) - 1 }

// Code is the documented four-byte compressed form of the parameters.
func (p Params) Code() []byte {
	v := uint32(0xea) << 24
	if p.NIST {
		v |= 1 << 20
	}
	v |= uint32(p.N/8-1) << 16
	v |= uint32(p.Func) << 14
	v |= map[int]uint32{4: 0, 16: 1, 256: 2}[p.W] << 12
	v |= uint32(p.H) << 6
	v |= uint32(p.D)
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], v)
	return b[:]
}

func toByte(x uint64, n int) []byte {
	r := make([]byte, n)
	for i := n - 1; i >= 0 && x > 0; i-- {
		r[i] = byte(x)
		x >>= 8
	}
	return r
}

func (p Params) hash(parts ...[]byte) []byte {
	var sp [448]byte
	m := sp[:0]
	for _, x := range parts {
		m = append(m, x...)
	}
	out := make([]byte, p.N)
	switch {
	case p.Func == SHA2 && p.N <= 32:
		h := sha256.Sum256(m)
		copy(out, h[:])
	case p.Func == SHA2:
		h := sha512.Sum512(m)
		copy(out, h[:])
	case p.Func == SHAKE && p.N <= 32:
		h := sha3.NewSHAKE128()
		h.Write(m)
		h.Read(out)
	default:
		h := sha3.NewSHAKE256()
		h.Write(m)
		h.Read(out)
	}
	return out
}

var prefixes = func() (r [5][65][]byte) {
	for x := range r {
		for n := range r[x] {
			r[x][n] = toByte(uint64(x), n)
		}
	}
	return
}()

func (p Params) pre(x uint64) []byte {
	if p.NIST {
		return prefixes[x][4]
	}
	return prefixes[x][p.N]
}

// Adrs is a hash address.
type Adrs [8]uint32

func (a Adrs) bytes() []byte {
	b := make([]byte, 32)
	for i, x := range a {
		binary.BigEndian.PutUint32(b[4*i:], x)
	}
	return b
}

func (p Params) prf(key []byte, m []byte) []byte { return p.hash(p.pre(3), key, m) }

func xor(a, b []byte) []byte {
	r := make([]byte, len(a))
	for i := range a {
		r[i] = a[i] ^ b[i]
	}
	return r
}

// HMsg is the keyed message hash.
func (p Params) HMsg(r, root []byte, idx uint64, msg []byte) []byte {
	return p.hash(p.pre(2), r, root, toByte(idx, p.N), msg)
}

// HMsgFrom is HMsg of a message that is read.
func (p Params) HMsgFrom(r, root []byte, idx uint64, msg io.Reader) []byte {
	out := make([]byte, p.N)
	var w io.Writer
	var sum func() []byte
	switch {
	case p.Func == SHA2 && p.N <= 32:
		h := sha256.New()
		w, sum = h, func() []byte { return h.Sum(nil) }
	case p.Func == SHA2:
		h := sha512.New()
		w, sum = h, func() []byte { return h.Sum(nil) }
	case p.Func == SHAKE && p.N <= 32:
		h := sha3.NewSHAKE128()
		w, sum = h, func() []byte { b := make([]byte, p.N); h.Read(b); return b }
	default:
		h := sha3.NewSHAKE256()
		w, sum = h, func() []byte { b := make([]byte, p.N); h.Read(b); return b }
	}
	for _, x := range [][]byte{p.pre(2), r, root, toByte(idx, p.N)} {
		w.Write(x)
	}
	if _, err := io.Copy(w, msg); err != nil {
		panic(err)
	}
	copy(out, sum())
	return out
}

// R is the randomiser of an index.
func (k *Key) R(idx uint64) []byte { return k.P.prf(k.SkPrf, toByte(idx, 32)) }

func (p Params) f(in, pubSeed []byte, a Adrs) []byte {
	a[7] = 0
	key := p.prf(pubSeed, a.bytes())
	a[7] = 1
	bm := p.prf(pubSeed, a.bytes())
	return p.hash(p.pre(0), key, xor(in, bm))
}

func (p Params) randHash(l, r, pubSeed []byte, a Adrs) []byte {
	a[7] = 0
	key := p.prf(pubSeed, a.bytes())
	a[7] = 1
	b0 := p.prf(pubSeed, a.bytes())
	a[7] = 2
	b1 := p.prf(pubSeed, a.bytes())
	return p.hash(p.pre(1), key, xor(l, b0), xor(r, b1))
}

// Chain applies the chaining function `steps` times from position `start`.
func (p Params) Chain(x []byte, start, steps int, pubSeed []byte, a Adrs) []byte {
	x = append([]byte(nil), x...)
	for i := start; i < start+steps; i++ {
		a[6] = uint32(i)
		x = p.f(x, pubSeed, a)
	}
	return x
}

// Digits splits a digest in base-w digits followed by the checksum digits.
func (p Params) Digits(d []byte) []int {
	lw := p.LogW()
	out := make([]int, 0, p.Len())
	for i := 0; i < p.Len1(); i++ {
		bit := i * lw
		out = append(out, int(d[bit/8])>>uint(8-lw-bit%8)&(p.W-1))
	}
	sum := 0
	for _, x := range out {
		sum += p.W - 1 - x
	}
	for i := p.Len2() - 1; i >= 0; i-- {
		out = append(out, sum>>uint(i*lw)&(p.W-1))
	}
	return out
}

// OTSAdrs is the address of a one-time key.
func OTSAdrs(layer int, tree uint64, leaf uint32) Adrs {
	return Adrs{uint32(layer), uint32(tree >> 32), uint32(tree), 0, leaf}
}

// Key is a full private key.
type Key struct {
	P                      Params
	PubSeed, SkSeed, SkPrf []byte
	Root                   []byte
	trees                  map[treeID][][][]byte
	ots                    map[otsID][]byte
}

type treeID struct {
	layer int
	tree  uint64
}
type otsID struct {
	treeID
}

// NewKey derives a key from its seeds.
func NewKey(p Params, pubSeed, skSeed, skPrf []byte) *Key {
	c := func(b []byte) []byte { return append([]byte(nil), b...) }
	k := &Key{P: p, PubSeed: c(pubSeed), SkSeed: c(skSeed), SkPrf: c(skPrf),
		trees: map[treeID][][][]byte{}, ots: map[otsID][]byte{}}
	t := k.tree(p.D-1, 0)
	k.Root = t[p.TH()][0]
	return k
}

// ChainStart is the secret start of one chain.
func (k *Key) ChainStart(a Adrs, chain int) []byte {
	a[5] = uint32(chain)
	a[6], a[7] = 0, 0
	return k.P.hash(k.P.pre(4), k.SkSeed, k.PubSeed, a.bytes())
}

func (p Params) ltree(pk [][]byte, pubSeed []byte, a Adrs) []byte {
	nodes := pk
	for h := uint32(0); len(nodes) > 1; h++ {
		var next [][]byte
		a[5] = h
		for i := 0; i+1 < len(nodes); i += 2 {
			a[6] = uint32(i / 2)
			next = append(next, p.randHash(nodes[i], nodes[i+1], pubSeed, a))
		}
		if len(nodes)%2 == 1 {
			next = append(next, nodes[len(nodes)-1])
		}
		nodes = next
	}
	return nodes[0]
}

func (k *Key) leaf(layer int, tree uint64, idx uint32) []byte {
	p := k.P
	a := OTSAdrs(layer, tree, idx)
	pk := make([][]byte, p.Len())
	for c := range pk {
		a[5] = uint32(c)
		pk[c] = p.Chain(k.ChainStart(a, c), 0, p.W-1, k.PubSeed, a)
	}
	return p.ltree(pk, k.PubSeed, Adrs{uint32(layer), uint32(tree >> 32), uint32(tree), 1, idx})
}

// tree returns all levels of a subtree; level 0 are the leaves.
func (k *Key) tree(layer int, tree uint64) [][][]byte {
	id := treeID{layer, tree}
	if t, ok := k.trees[id]; ok {
		return t
	}
	p := k.P
	lv := make([][]byte, 1<<uint(p.TH()))
	for i := range lv {
		lv[i] = k.leaf(layer, tree, uint32(i))
	}
	t := [][][]byte{lv}
	a := Adrs{uint32(layer), uint32(tree >> 32), uint32(tree), 2}
	for h := 0; h < p.TH(); h++ {
		a[5] = uint32(h)
		next := make([][]byte, len(lv)/2)
		for i := range next {
			a[6] = uint32(i)
			next[i] = p.randHash(lv[2*i], lv[2*i+1], k.PubSeed, a)
		}
		lv = next
		t = append(t, lv)
	}
	k.trees[id] = t
	return t
}

// SubTreeNodes returns the nodes of a subtree, leaves first, concatenated.
func (k *Key) SubTreeNodes(layer int, tree uint64) []byte {
	var out []byte
	for _, lv := range k.tree(layer, tree) {
		for _, n := range lv {
			out = append(out, n...)
		}
	}
	return out
}

// PK is the library's encoding of the public key.
func (k *Key) PK() []byte {
	return append(append(append([]byte{}, k.P.Code()...), k.Root...), k.PubSeed...)
}

// SkBytes is the private key as stored in a container.
func (k *Key) SkBytes() []byte {
	return append(append(append([]byte{}, k.SkSeed...), k.SkPrf...), k.PubSeed...)
}

func (k *Key) wotsSign(a Adrs, digest []byte) []byte {
	var out []byte
	for c, d := range k.P.Digits(digest) {
		a[5] = uint32(c)
		out = append(out, k.P.Chain(k.ChainStart(a, c), 0, d, k.PubSeed, a)...)
	}
	return out
}

// Odd describes a deviation from the specification, used to make signatures
// which a verifier has to refuse although they are internally coherent.
type Odd struct {
	HashRoot []byte  // root mixed into the message hash
	HashIdx  *uint64 // index mixed into the message hash
	EncIdx   *uint64 // index written in the signature
	R        []byte  // randomiser
	Digest   []byte  // digest to sign instead of the message hash
	// NodeXor flips a bit of the root signed by layer i (i>=1).
	WrongRootLayer int
}

// Sign signs msg at index idx; the result is in the library's encoding.
func (k *Key) Sign(idx uint64, msg []byte) []byte { return k.SignOdd(idx, msg, Odd{}) }

// SignOdd is Sign with a deviation.
func (k *Key) SignOdd(idx uint64, msg []byte, o Odd) []byte {
	p := k.P
	r := p.prf(k.SkPrf, toByte(idx, 32))
	if o.R != nil {
		r = o.R
	}
	root, hidx, eidx := k.Root, idx, idx
	if o.HashRoot != nil {
		root = o.HashRoot
	}
	if o.HashIdx != nil {
		hidx = *o.HashIdx
	}
	if o.EncIdx != nil {
		eidx = *o.EncIdx
	}
	out := append([]byte{}, p.Code()...)
	out = append(out, toByte(eidx, p.IndexBytes())...)
	out = append(out, r...)
	m := p.HMsg(r, root, hidx, msg)
	if o.Digest != nil {
		m = o.Digest
	}
	for layer := 0; layer < p.D; layer++ {
		leaf := uint32(idx >> uint(layer*p.TH()) & (1<<uint(p.TH()) - 1))
		var tree uint64
		if (layer+1)*p.TH() < 64 {
			tree = idx >> uint((layer+1)*p.TH())
		}
		if layer > 0 && !(p.TH() == 0) {
			id := otsID{treeID{layer - 1, idx >> uint(layer*p.TH())}}
			if o.WrongRootLayer == layer {
				m = append([]byte{}, m...)
				m[0] ^= 1
				out = append(out, k.wotsSign(OTSAdrs(layer, tree, leaf), m)...)
			} else {
				s, ok := k.ots[id]
				if !ok {
					s = k.wotsSign(OTSAdrs(layer, tree, leaf), m)
					k.ots[id] = s
				}
				out = append(out, s...)
			}
		} else {
			out = append(out, k.wotsSign(OTSAdrs(layer, tree, leaf), m)...)
		}
		t := k.tree(layer, tree)
		node := leaf
		for h := 0; h < p.TH(); h++ {
			out = append(out, t[h][node^1]...)
			node >>= 1
		}
		m = t[p.TH()][0]
	}
	return out
}

// Verify decides whether sig (in the library's encoding, of the same
// parameters, with an index inside the tree) is a signature on msg under pk.
func Verify(p Params, pk, sig, msg []byte) bool {
	if len(pk) != 4+2*p.N || len(sig) != 4+p.SigBytes() {
		return false
	}
	if !bytes.Equal(pk[:4], p.Code()) || !bytes.Equal(sig[:4], p.Code()) {
		return false
	}
	root, pubSeed := pk[4:4+p.N], pk[4+p.N:]
	s := sig[4:]
	var idx uint64
	for _, b := range s[:p.IndexBytes()] {
		idx = idx<<8 | uint64(b)
	}
	if p.H < 64 && idx>>uint(p.H) != 0 {
		return false
	}
	s = s[p.IndexBytes():]
	r := s[:p.N]
	s = s[p.N:]
	m := p.HMsg(r, root, idx, msg)
	for layer := 0; layer < p.D; layer++ {
		leaf := uint32(idx >> uint(layer*p.TH()) & (1<<uint(p.TH()) - 1))
		var tree uint64
		if (layer+1)*p.TH() < 64 {
			tree = idx >> uint((layer+1)*p.TH())
		}
		a := OTSAdrs(layer, tree, leaf)
		pkw := make([][]byte, p.Len())
		for c, d := range p.Digits(m) {
			a[5] = uint32(c)
			pkw[c] = p.Chain(s[c*p.N:(c+1)*p.N], d, p.W-1-d, pubSeed, a)
		}
		s = s[p.WotsBytes():]
		node := p.ltree(pkw, pubSeed, Adrs{a[0], a[1], a[2], 1, leaf})
		ta := Adrs{a[0], a[1], a[2], 2}
		at := leaf
		for h := 0; h < p.TH(); h++ {
			sib := s[:p.N]
			s = s[p.N:]
			ta[5] = uint32(h)
			ta[6] = at >> 1
			if at&1 == 0 {
				node = p.randHash(node, sib, pubSeed, ta)
			} else {
				node = p.randHash(sib, node, pubSeed, ta)
			}
			at >>= 1
		}
		m = node
	}
	return bytes.Equal(m, root)
}

// Positions recovers from a one-time signature of the key at address a how far
// along each chain its values lie (-1: not on the chain).
func (k *Key) Positions(a Adrs, wots []byte) []int {
	p := k.P
	out := make([]int, p.Len())
	for c := range out {
		a[5] = uint32(c)
		x := k.ChainStart(a, c)
		out[c] = -1
		for pos := 0; pos < p.W; pos++ {
			if bytes.Equal(x, wots[c*p.N:(c+1)*p.N]) {
				out[c] = pos
				break
			}
			x = p.Chain(x, pos, 1, k.PubSeed, a)
		}
	}
	return out
}
