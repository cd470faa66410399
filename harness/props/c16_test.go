package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C16: the compressed parameter prefix is an exact, unambiguous code.

// judgeCode decodes four bytes and compares with the documented layout,
// spelled out here a second time.  It returns what is wrong, if anything.
func judgeCode(b [4]byte) (bad string, decoded, supported bool) {
	want, isSupported := paramsFromCode(b[:])
	fits := b[0] == 0xEA && b[1]>>5 == 0 && b[2]>>6 != 3 && b[2]>>4&3 != 3
	var got xmssmt.Params
	err := got.UnmarshalBinary(b[:])
	if err != nil {
		if isSupported {
			return "a supported parameter set is refused: " + err.Error(), false, true
		}
		return "", false, false
	}
	if !fits {
		return "accepted although it does not have the documented form", true, false
	}
	// the fields, from the documented widths
	bits := uint(32)
	take := func(n uint) uint32 {
		bits -= n
		return binary.BigEndian.Uint32(b[:]) >> bits & (1<<n - 1)
	}
	take(8)
	take(3)
	exp := xmssmt.Params{}
	exp.Prf = xmssmt.PrfConstruction(take(1))
	exp.N = (take(4) + 1) * 8
	exp.Func = xmssmt.HashFunc(take(2))
	exp.WotsW = []uint16{4, 16, 256, 0}[take(2)]
	exp.FullHeight = take(6)
	exp.D = take(6)
	if got != exp {
		return fmt.Sprintf("decoded as %+v instead of %+v", got, exp), true, isSupported
	}
	if isSupported && got != lib(want) {
		return "decoded otherwise than documented", true, true
	}
	enc, e := got.MarshalBinary()
	if e != nil {
		return "decoded, but does not encode: " + e.Error(), true, isSupported
	}
	if !bytes.Equal(enc, b[:]) {
		return fmt.Sprintf("decoded, but encodes to %x", enc), true, isSupported
	}
	buf := []byte{1, 2, 3, 4}
	if e := got.WriteInto(buf); e != nil || !bytes.Equal(buf, b[:]) {
		return fmt.Sprintf("decoded, but WriteInto() writes %x (%v)", buf, e), true, isSupported
	}
	return "", true, isSupported
}

// All 2^24 codes with the magic byte, over all shards.
func TestC16_AllCodes(t *testing.T) {
	n, dec, sup := 0, 0, 0
	one := func(v uint32) {
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], v)
		var bad string
		var d, s bool
		if e := protect(func() { bad, d, s = judgeCode(b) }); e != nil {
			bad = e.Error()
		}
		if bad != "" {
			t.Fatalf("code %x: %s", b, bad)
		}
		n++
		if d {
			dec++
		}
		if s {
			sup++
			if sup%64 == 0 {
				nontrivial(fmt.Sprintf("C16 code %x and the 63 supported ones before it", b))
			}
		}
	}
	for v := shard; v < 1<<24; v += shards {
		one(0xEA000000 | uint32(v))
		if v>>16 != (v-shards)>>16 {
			step("code %x", v)
		}
	}
	// Other first bytes: all of them with the remainder of genuine codes, and
	// every possible first two bytes.
	tails := []uint32{0x020001, 0x031041 << 0, 0x001481, 0x035501, 0x131041, 0x000000, 0xffffff}
	for m := 0; m < 256; m++ {
		if m == 0xEA || !mine(m) {
			continue
		}
		for _, tl := range tails {
			one(uint32(m)<<24 | tl)
		}
		for x := uint32(0); x < 1<<13; x++ {
			one(uint32(m)<<24 | x*0x7f1&0xffffff)
		}
	}
	evalN(n)
	label("codes decoded")
	stats.mu.Lock()
	stats.Labels["codes decoded"] += int64(dec) - 1
	stats.Labels["codes of supported parameters"] += int64(sup)
	stats.mu.Unlock()
}

// Parameters, fitting the format or not.
func TestC16_Encode(t *testing.T) {
	seen := map[[4]byte]xmssmt.Params{}
	check(t, 1000000, 5000000, func(t *rapid.T) {
		odd := map[string]bool{}
		for i, n := 0, rapid.SampledFrom([]int{0, 1, 1, 1, 2}).Draw(t, "nOdd"); i < n; i++ {
			odd[rapid.SampledFrom([]string{"h", "d", "n", "w", "func", "prf"}).Draw(t, "odd")] = true
		}
		u32 := func(name string, max uint32) uint32 {
			if !odd[name] {
				return rapid.Uint32Range(0, max).Draw(t, name)
			}
			if rapid.Bool().Draw(t, name+"Kind") {
				// equal to a fitting value in the low bits
				return rapid.Uint32Range(0, max).Draw(t, name) + 1<<rapid.IntRange(6, 31).Draw(t, name+"Bit")
			}
			return rapid.SampledFrom([]uint32{max + 1, 2*max + 1, 2 * max, 1 << 8, 1 << 16, 1 << 31, 0xffffffff}).Draw(t, name)
		}
		p := xmssmt.Params{D: u32("d", 63)}
		p.FullHeight = u32("h", 63)
		if !odd["h"] && !odd["d"] && p.D > 0 && rapid.IntRange(0, 2).Draw(t, "divides") > 0 {
			p.FullHeight = p.FullHeight / p.D * p.D
		}
		switch {
		case !odd["n"]:
			p.N = rapid.SampledFrom([]uint32{16, 24, 32, 64, 8, 128, 120, 40}).Draw(t, "n")
		case rapid.Bool().Draw(t, "nKind"):
			p.N = rapid.SampledFrom([]uint32{0, 4, 12, 31, 33, 129, 136, 144, 160, 256, 1 << 12, 1<<32 - 8, 1 << 31, 8*17 + 1}).Draw(t, "n")
		default:
			p.N = rapid.Uint32().Draw(t, "n")
		}
		p.WotsW = rapid.SampledFrom([]uint16{16, 4, 256}).Draw(t, "w")
		if odd["w"] {
			p.WotsW = rapid.Uint16().Draw(t, "w")
			if rapid.Bool().Draw(t, "wKind") {
				p.WotsW = rapid.SampledFrom([]uint16{0, 1, 2, 3, 5, 8, 15, 17, 32, 64, 255, 257, 512, 4096, 65535}).Draw(t, "w")
			}
		}
		p.Func = xmssmt.HashFunc(rapid.IntRange(0, 2).Draw(t, "func"))
		if odd["func"] {
			p.Func = xmssmt.HashFunc(rapid.Uint8Range(3, 255).Draw(t, "func"))
		}
		p.Prf = xmssmt.PrfConstruction(rapid.IntRange(0, 1).Draw(t, "prf"))
		if odd["prf"] {
			p.Prf = xmssmt.PrfConstruction(rapid.Uint8Range(2, 255).Draw(t, "prf"))
		}
		// what fits: exactly what the documented fields can hold
		fits := p.N%8 == 0 && p.N >= 8 && p.N <= 128 && p.Func <= 2 && p.Prf <= 1 &&
			(p.WotsW == 4 || p.WotsW == 16 || p.WotsW == 256) && p.FullHeight <= 63 && p.D <= 63
		orig := p
		// Whatever the library accepts for use can be encoded.
		usable := false
		if e := protect(func() { _, err := xmssmt.NewContext(p); usable = err == nil }); e != nil {
			t.Fatalf("NewContext(%+v): %v", p, e)
		}
		if usable && !fits {
			t.Fatalf("NewContext(%+v) succeeds, although these parameters can not be encoded", p)
		}
		enc, err := p.MarshalBinary()
		if p != orig {
			t.Fatalf("%+v is altered by encoding it: %+v", orig, p)
		}
		buf := []byte{9, 9, 9, 9}
		err2 := p.WriteInto(buf)
		eval()
		if (err == nil) != (err2 == nil) {
			t.Fatalf("%+v: MarshalBinary() says %v, WriteInto() %v", p, err, err2)
		}
		if !fits {
			label("does not fit")
			nontrivial(fmt.Sprintf("C16 encode %+v", p))
			if err == nil {
				t.Fatalf("%+v does not fit the format, but is encoded as %x", p, enc)
			}
			return
		}
		label("fits")
		w := map[uint16]int{4: 0, 16: 1, 256: 2}[p.WotsW]
		want := []byte{0xEA,
			byte(p.Prf)<<4 | byte(p.N/8-1),
			byte(p.Func)<<6 | byte(w)<<4 | byte(p.FullHeight>>2),
			byte(p.FullHeight<<6) | byte(p.D)}
		q, supported := paramsFromCode(want)
		if err != nil {
			if supported {
				t.Fatalf("%+v is not encoded: %v", p, err)
			}
			return
		}
		if !bytes.Equal(enc, want) || !bytes.Equal(buf, want) {
			t.Fatalf("%+v is encoded as %x and %x, documented is %x", p, enc, buf, want)
		}
		var c [4]byte
		copy(c[:], enc)
		if o, ok := seen[c]; ok && o != p {
			t.Fatalf("%+v and %+v share the code %x", o, p, c)
		}
		seen[c] = p
		if !supported {
			return
		}
		label("supported")
		if lib(q) != p {
			t.Fatalf("harness: %+v", p)
		}
		if _, err := xmssmt.NewContext(p); err != nil {
			t.Fatalf("NewContext(%+v): %v", p, err)
		}
		back := xmssmt.Params{Func: 2, N: 77, FullHeight: 5, D: 99, WotsW: 3, Prf: 1}
		if err := back.UnmarshalBinary(enc); err != nil || back != p {
			t.Fatalf("%+v is encoded as %x, which decodes to %+v (%v)", p, enc, back, err)
		}
		nontrivial(fmt.Sprintf("C16 encode %+v", p))
	})
}

// Anything but four bytes is refused.
func TestC16_Lengths(t *testing.T) {
	check(t, 20000, 100000, func(t *rapid.T) {
		p := genShape(t, genBase(t), 1e9, 1, 20, 20)
		b := p.Code()
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 5, 6, 7, 8, 16, 100}).Draw(t, "len")
		x := append(append([]byte(nil), b...), make([]byte, 100)...)[:n]
		if rapid.Bool().Draw(t, "front") && n > 4 {
			x = append(make([]byte, n-4), b...)
		}
		var q xmssmt.Params
		if e := protect(func() {
			if err := q.UnmarshalBinary(x); err == nil {
				t.Fatalf("%x is accepted as a parameter prefix", x)
			}
		}); e != nil {
			t.Fatalf("%x: %v", x, e)
		}
		eval()
		nontrivial(fmt.Sprintf("C16 length %x", x))
	})
}
