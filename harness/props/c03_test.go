package props

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C03: nothing but genuine signatures is accepted.

// paramsFromCode decodes the documented four-byte code; ok is false unless it
// is one of a set of parameters that the library supports.
func paramsFromCode(b []byte) (p P, ok bool) {
	if b[0] != 0xEA || b[1]>>5 != 0 {
		return
	}
	v := uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
	p.NIST = v>>20&1 == 1
	p.N = int(v>>16&15+1) * 8
	p.Func = int(v >> 14 & 3)
	w := v >> 12 & 3
	p.H, p.D = int(v>>6&63), int(v&63)
	if w > 2 || p.Func > 2 || p.D == 0 || p.H%p.D != 0 {
		return
	}
	p.W = []int{4, 16, 256}[w]
	switch p.N {
	case 16, 24, 32, 64:
		return p, true
	}
	return
}

type region struct {
	name     string
	off, len int
}

// sigRegions lists the parts of an encoded signature.
func sigRegions(p P) []region {
	r := []region{{"prefix", 0, 4}, {"index", 4, p.IndexBytes()}, {"R", 4 + p.IndexBytes(), p.N}}
	o := 4 + p.IndexBytes() + p.N
	for l := 0; l < p.D; l++ {
		lay := "bottom"
		if l > 0 {
			lay = "upper"
		}
		r = append(r, region{lay + " digest chains", o, p.Len1() * p.N},
			region{lay + " checksum chains", o + p.Len1()*p.N, p.Len2() * p.N})
		o += p.WotsBytes()
		if p.TH() > 0 {
			r = append(r, region{lay + " path", o, p.TH() * p.N},
				region{lay + " path top", o + (p.TH()-1)*p.N, p.N})
			o += p.TH() * p.N
		}
	}
	return r
}

func flip(b []byte, bit int) []byte {
	b = append([]byte(nil), b...)
	b[bit/8] ^= 1 << uint(bit%8)
	return b
}

func altered(t *rapid.T, msg []byte) []byte {
	switch rapid.IntRange(0, 3).Draw(t, "msgAlter") {
	case 0:
		return append(append([]byte{}, msg...), 0)
	case 1:
		if len(msg) > 0 {
			return append([]byte{}, msg[:len(msg)-1]...)
		}
	case 2:
		if len(msg) > 0 {
			i := len(msg) - 1
			if rapid.Bool().Draw(t, "anywhere") {
				i = rapid.IntRange(0, i).Draw(t, "byte")
			}
			return flip(msg, i*8+rapid.IntRange(0, 7).Draw(t, "bit"))
		}
	}
	return append(append([]byte{}, msg...), rapid.SliceOfN(rapid.Byte(), 1, 200).Draw(t, "tail")...)
}

func TestC03_Forgeries(t *testing.T) {
	check(t, 800, 8000, func(t *rapid.T) {
		p := genParams(t, 12, 3, 0)
		k := genKey(t, p)
		pkb := k.PK()
		idx := genIndex(t, p)
		if rapid.IntRange(0, 15).Draw(t, "lastLeaf") == 0 {
			idx = p.Max()
		}
		msg := genShortMsg(t)
		if rapid.IntRange(0, 9).Draw(t, "longMsg") == 0 {
			msg = genMsg(t)
		}
		step("C03 %v idx %d", p, idx)
		good := k.Sign(idx, msg)
		if !acceptsBytes(t, pkb, good, msg, nil, nil) {
			t.Fatalf("the specification's signature at index %d is refused", idx)
		}
		regs := sigRegions(p)
		n := rapid.IntRange(8, 30).Draw(t, "n")
		for i := 0; i < n; i++ {
			pk2, sig2, msg2 := pkb, good, msg
			kind, detail := "", ""
			mustRefuse := true
			switch rapid.IntRange(0, 14).Draw(t, "kind") {
			case 0, 1, 2, 3, 4:
				r := rapid.SampledFrom(regs).Draw(t, "region")
				bit := r.off*8 + rapid.IntRange(0, r.len*8-1).Draw(t, "bit")
				sig2 = flip(good, bit)
				kind, detail = "flip "+r.name, fmt.Sprint(bit)
			case 5:
				bit := rapid.IntRange(0, len(pkb)*8-1).Draw(t, "bit")
				if rapid.IntRange(0, 3).Draw(t, "prefix") == 0 {
					bit = rapid.IntRange(0, 31).Draw(t, "bit")
				}
				pk2 = flip(pkb, bit)
				kind, detail = "flip key", fmt.Sprint(bit)
			case 6:
				msg2 = altered(t, msg)
				kind, detail = "message", fmt.Sprint(len(msg2))
			case 7: // index
				j := genIndex(t, p)
				if j == idx {
					j = idx ^ 1
				}
				s := k.SignOdd(idx, msg, ref.Odd{EncIdx: &j})
				kind, detail = "index replaced", fmt.Sprint(j)
				if rapid.Bool().Draw(t, "hashToo") {
					s = k.SignOdd(idx, msg, ref.Odd{EncIdx: &j, HashIdx: &j})
					kind = "index replaced in encoding and hash"
				}
				sig2 = s
			case 8: // an index beyond the tree, otherwise consistent
				room := p.IndexBytes()*8 - p.H
				if room <= 0 {
					continue
				}
				j := idx | 1<<uint(p.H+rapid.IntRange(0, room-1).Draw(t, "hi"))
				o := ref.Odd{EncIdx: &j}
				if rapid.Bool().Draw(t, "hashToo") {
					o.HashIdx = &j
				}
				sig2 = k.SignOdd(idx, msg, o)
				kind, detail = "index beyond the tree", fmt.Sprint(j)
			case 9: // message hash of something else
				o := ref.Odd{}
				switch rapid.IntRange(0, 2).Draw(t, "what") {
				case 0:
					o.HashRoot = k.PubSeed
					if bytes.Equal(k.PubSeed, k.Root) {
						continue
					}
				case 1:
					o.HashRoot = make([]byte, p.N)
				default:
					j := idx ^ 1<<uint(rapid.IntRange(0, 63).Draw(t, "bit"))
					o.HashIdx = &j
				}
				sig2 = k.SignOdd(idx, msg, o)
				kind = "message hash with another root or index"
			case 10:
				if p.D == 1 {
					continue
				}
				l := rapid.IntRange(1, p.D-1).Draw(t, "layer")
				sig2 = k.SignOdd(idx, msg, ref.Odd{WrongRootLayer: l})
				kind, detail = "wrong subtree root signed", fmt.Sprint(l)
			case 11: // parts of another signature by the same key
				idx2 := genIndex(t, p)
				other := k.Sign(idx2, genShortMsg(t))
				r := rapid.SampledFrom(regs).Draw(t, "region")
				sig2 = append([]byte{}, good...)
				copy(sig2[r.off:r.off+r.len], other[r.off:r.off+r.len])
				if bytes.Equal(sig2, good) {
					continue
				}
				kind, detail = "transplanted "+r.name, fmt.Sprint(idx2)
			case 12: // exchange two layers
				if p.D == 1 {
					continue
				}
				sz := p.WotsBytes() + p.TH()*p.N
				a := rapid.IntRange(0, p.D-1).Draw(t, "a")
				b := rapid.IntRange(0, p.D-1).Draw(t, "b")
				if a == b {
					b = (a + 1) % p.D
				}
				o := 4 + p.IndexBytes() + p.N
				sig2 = append([]byte{}, good...)
				copy(sig2[o+a*sz:o+(a+1)*sz], good[o+b*sz:o+(b+1)*sz])
				copy(sig2[o+b*sz:o+(b+1)*sz], good[o+a*sz:o+(a+1)*sz])
				kind = "layers exchanged"
			case 13: // another key
				k2 := genKey(t, p)
				if bytes.Equal(k2.SkSeed, k.SkSeed) && bytes.Equal(k2.PubSeed, k.PubSeed) {
					continue
				}
				kind = "another key"
				pk2 = k2.PK()
				if rapid.Bool().Draw(t, "halfKey") {
					pk2 = append(append([]byte{}, pkb[:4+p.N]...), k2.PubSeed...)
					if bytes.Equal(k.PubSeed, k2.PubSeed) {
						continue
					}
					kind = "key with another seed"
				}
			case 14: // other parameters in both
				bit := rapid.IntRange(8, 31).Draw(t, "bit")
				pk2, sig2 = flip(pkb, bit), flip(good, bit)
				kind, detail = "parameters replaced in both", fmt.Sprint(bit)
				mustRefuse = false // decided by the reference
			}
			step("C03 %v idx %d: %s %s", p, idx, kind, detail)
			got := acceptsBytes(t, pk2, sig2, msg2, nil, nil)
			eval()
			label("%s", kind)
			nontrivial(fmt.Sprintf("C03 %v idx=%d %s %s pk=%x", p, idx, kind, detail, k.Root[:4]))
			want := false
			p2, ok := paramsFromCode(sig2)
			if ok && bytes.Equal(pk2[:4], sig2[:4]) && len(sig2) >= 4+p2.SigBytes() && len(pk2) >= 4+2*p2.N {
				want = ref.Verify(p2, pk2[:4+2*p2.N], sig2[:4+p2.SigBytes()], msg2)
			}
			if want && mustRefuse {
				infra("the reference accepts a forgery: %v %s %s", p, kind, detail)
			}
			if got != want {
				t.Fatalf("%s %s: verdict %v, want %v (%v, index %d)", kind, detail, got, want, p, idx)
			}
		}
	})
}

// Every single bit of one encoding.
func TestC03_EveryBit(t *testing.T) {
	check(t, 16, 200, func(t *rapid.T) {
		p := genParams(t, 2, 2, 3)
		p.W = rapid.SampledFrom([]int{4, 16}).Draw(t, "w2")
		if p.N > 32 {
			p.N = 16
		}
		k := genKey(t, p)
		idx := genIndex(t, p)
		msg := genShortMsg(t)
		good, pkb := k.Sign(idx, msg), k.PK()
		stride := rapid.IntRange(2, 12).Draw(t, "stride")
		off := rapid.IntRange(0, stride-1).Draw(t, "off")
		for bit := off; bit < len(good)*8; bit += stride {
			if acceptsOne(pkb, flip(good, bit), msg) {
				t.Fatalf("accepted with bit %d of the signature changed (%v, index %d)", bit, p, idx)
			}
			if bit%256 == 0 {
				step("C03 every bit %v %d", p, bit)
			}
			eval()
		}
		for bit := 0; bit < len(pkb)*8; bit++ {
			if acceptsOne(flip(pkb, bit), good, msg) {
				t.Fatalf("accepted with bit %d of the key changed (%v, index %d)", bit, p, idx)
			}
			eval()
		}
		nontrivial(fmt.Sprintf("C03 every bit %v idx=%d stride=%d pk=%x", p, idx, stride, k.Root[:4]))
	})
}

func acceptsOne(pkb, sigb, msg []byte) bool {
	ok, _ := xmssmt.Verify(pkb, sigb, msg)
	return ok
}
