package props

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C15: untrusted bytes.

// hostile feeds b to everything that decodes; it returns what is wrong.
func hostile(b []byte, msg []byte, goodPK, goodSig []byte) (bad string, decoded int) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("panic: %v", r)
		}
	}()
	in := append([]byte(nil), b...)
	var params xmssmt.Params
	if err := params.UnmarshalBinary(in); err == nil {
		decoded++
		_ = params.String()
		if out, err := params.MarshalBinary(); err != nil || !bytes.Equal(out, b) {
			return fmt.Sprintf("parameters decode, but encode as %x, %v", out, err), decoded
		}
		xmssmt.NewContext(params)
	}
	var pk xmssmt.PublicKey
	pkOK := pk.UnmarshalBinary(in) == nil
	if pkOK {
		decoded++
		out, err := pk.MarshalBinary()
		if err != nil || len(out) > len(b) || !bytes.Equal(out, b[:len(out)]) {
			return fmt.Sprintf("a public key decodes, but encodes differently (%v)", err), decoded
		}
		tx, err := pk.MarshalText()
		if err != nil || string(tx) != base64.StdEncoding.EncodeToString(out) {
			return fmt.Sprintf("text form %q %v", tx, err), decoded
		}
		c := pk.Context()
		_, _, _ = c.Name(), c.Oid(), c.Params().String()
	}
	var sig xmssmt.Signature
	sigOK := sig.UnmarshalBinary(in) == nil
	if sigOK {
		decoded++
		out, err := sig.MarshalBinary()
		if err != nil || len(out) > len(b) || !bytes.Equal(out, b[:len(out)]) {
			return fmt.Sprintf("a signature decodes, but encodes differently (%v)", err), decoded
		}
		_ = sig.String()
		_ = sig.SeqNo()
	}
	check := func(what string, ok bool, err error) {
		if ok && err != nil {
			bad = fmt.Sprintf("%s: true together with the error %v", what, err)
		}
		if !ok && err == nil {
			bad = fmt.Sprintf("%s: false without an error", what)
		}
	}
	vb := func(what string, pk, sig []byte) {
		ok, err := xmssmt.Verify(pk, sig, msg)
		if err != nil {
			check(what, ok, err)
		} else {
			check(what, ok, nil)
		}
	}
	vb("Verify(b, b)", in, in)
	vb("Verify(good, b)", goodPK, in)
	vb("Verify(b, good)", in, goodSig)
	if pkOK && sigOK {
		ok, err := pk.Verify(&sig, msg)
		if err != nil {
			check("pk.Verify", ok, err)
		} else {
			check("pk.Verify", ok, nil)
		}
	}
	if pkOK {
		// a signature made to fit this key's parameters
		c := pk.Context()
		n := 4 + int(c.SignatureSize())
		if n < 1<<20 {
			s := append(append([]byte(nil), b[:4]...), make([]byte, n-4)...)
			for i := range s[4:] {
				s[4+i] = byte(i * 7)
			}
			vb("Verify(b, fitting)", in, s)
		}
	}
	if sigOK {
		c := sig.Context()
		k := append(append([]byte(nil), b[:4]...), make([]byte, 2*int(c.Params().N))...)
		vb("Verify(fitting, b)", k, in)
	}
	if !bytes.Equal(in, b) {
		return "the input was changed", decoded
	}
	return bad, decoded
}

func TestC15_Bytes(t *testing.T) {
	check(t, 14000, 600000, func(t *rapid.T) {
		p := genBase(t)
		p.D = rapid.IntRange(1, 6).Draw(t, "d")
		p.H = p.D * rapid.IntRange(1, 5).Draw(t, "th")
		goodPK := append(p.Code(), expand(1, 2*p.N)...)
		goodSig := append(p.Code(), expand(2, p.SigBytes())...)
		var b []byte
		kind := pick(t, "kind", "random", 1, "prefixed", 3, "code", 6, "mutated", 4, "cut", 4, "spliced", 2)
		switch kind {
		case "random":
			b = rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "b")
		case "prefixed": // valid magic and version
			b = append([]byte{0xea, byte(rapid.IntRange(0, 31).Draw(t, "b1")), rapid.Byte().Draw(t, "b2"), rapid.Byte().Draw(t, "b3")},
				expand(rapid.Uint64().Draw(t, "x"), rapid.IntRange(0, 9000).Draw(t, "n"))...)
		case "code": // boundary values of each field
			prf := rapid.IntRange(0, 1).Draw(t, "prf")
			n := rapid.SampledFrom([]int{3, 1, 2, 7, 0, 15, 4, 8}).Draw(t, "nCode")
			f := rapid.IntRange(0, 3).Draw(t, "func")
			w := rapid.IntRange(0, 3).Draw(t, "w")
			h := rapid.SampledFrom([]int{0, 1, 2, 10, 20, 62, 63, 60, 32, 33}).Draw(t, "h")
			d := rapid.SampledFrom([]int{1, 0, 2, 63, 10, 31, 3, 5, 60, 33}).Draw(t, "d")
			v := 0xea<<24 | uint32(prf<<20|n<<16|f<<14|w<<12|h<<6|d)
			b = []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
			size := rapid.SampledFrom([]int{0, 1, 31, 32, 48, 64, 65, 128, 2000, 10000, 70000, 300000}).Draw(t, "size")
			b = append(b, expand(rapid.Uint64().Draw(t, "x"), size)...)
		case "mutated":
			b = append([]byte(nil), goodSig...)
			if rapid.Bool().Draw(t, "pk") {
				b = append([]byte(nil), goodPK...)
			}
			for i := rapid.IntRange(1, 5).Draw(t, "n"); i > 0; i-- {
				at := rapid.IntRange(0, len(b)-1).Draw(t, "at")
				if rapid.Bool().Draw(t, "front") {
					at %= 16
				}
				b[at] = rapid.Byte().Draw(t, "val")
			}
		case "cut":
			g := goodSig
			if rapid.Bool().Draw(t, "pk") {
				g = goodPK
			}
			b = g[:rapid.IntRange(0, len(g)-1).Draw(t, "len")]
			if rapid.IntRange(0, 2).Draw(t, "nearEnd") == 0 {
				b = g[:len(g)-1-rapid.IntRange(0, min(40, len(g)-1)).Draw(t, "missing")]
			}
			var s xmssmt.Signature
			var k xmssmt.PublicKey
			if len(g) == len(goodSig) {
				var err error
				if e := protect(func() { err = s.UnmarshalBinary(b) }); e != nil || err == nil {
					t.Fatalf("%v: a signature cut to %d of %d bytes: %v", p, len(b), len(g), e)
				}
			} else {
				var err error
				if e := protect(func() { err = k.UnmarshalBinary(b) }); e != nil || err == nil {
					t.Fatalf("%v: a public key cut to %d of %d bytes: %v", p, len(b), len(g), e)
				}
			}
		case "spliced":
			b = append(append([]byte(nil), goodPK[:rapid.IntRange(0, len(goodPK)).Draw(t, "i")]...),
				goodSig[rapid.IntRange(0, len(goodSig)).Draw(t, "j"):]...)
		}
		step("%s %d bytes %x", kind, len(b), b[:min(len(b), 16)])
		bad, dec := hostile(b, []byte("msg"), goodPK, goodSig)
		if bad != "" {
			t.Fatalf("%d bytes %x...: %s", len(b), b[:min(len(b), 40)], bad)
		}
		eval()
		if dec > 0 {
			nontrivial(fmt.Sprintf("C15 %s %x %d", kind, b[:min(len(b), 24)], len(b)))
			label("decoded")
		}
		label("kind %s", kind)
	})
}

// Each truncation of encodings of every supported kind of parameters.
func TestC15_Truncations(t *testing.T) {
	i := -1
	for _, n := range []int{16, 24, 32, 64} {
		for _, w := range []int{4, 16, 256} {
			for _, hd := range [][2]int{{2, 1}, {4, 2}, {9, 3}} {
				for f := 0; f < 3; f++ {
					i++
					if !mine(i) {
						continue
					}
					p := P{Func: f, N: n, W: w, H: hd[0], D: hd[1], NIST: i%2 == 0}
					sig := append(p.Code(), expand(uint64(i), p.SigBytes())...)
					pk := append(p.Code(), expand(uint64(i+1000), 2*n)...)
					stride := 1
					if !thorough {
						stride = 7
					}
					for l := len(sig) - 1; l >= 0; l-- {
						if l%stride != 0 && l > 200 && l < len(sig)-200 {
							continue
						}
						var s xmssmt.Signature
						var err error
						if e := protect(func() { err = s.UnmarshalBinary(sig[:l:l]) }); e != nil || err == nil {
							t.Fatalf("%v: a signature cut to %d of %d bytes: %v %v", p, l, len(sig), err, e)
						}
						evalN(1)
					}
					for l := len(pk) - 1; l >= 0; l-- {
						var k xmssmt.PublicKey
						var err error
						if e := protect(func() { err = k.UnmarshalBinary(pk[:l:l]) }); e != nil || err == nil {
							t.Fatalf("%v: a public key cut to %d of %d bytes: %v %v", p, l, len(pk), err, e)
						}
						tx := []byte(base64.StdEncoding.EncodeToString(pk[:l]))
						if e := protect(func() { err = k.UnmarshalText(tx) }); e != nil || err == nil {
							t.Fatalf("%v: a text key of %d of %d bytes: %v %v", p, l, len(pk), err, e)
						}
						var ok bool
						if e := protect(func() { ok, err = xmssmt.Verify(pk[:l], sig, nil) }); e != nil || ok || err == nil {
							t.Fatalf("%v: Verify with a public key cut to %d of %d bytes: %v %v", p, l, len(pk), err, e)
						}
						evalN(2)
					}
					step("truncations of %v", p)
					nontrivial(fmt.Sprintf("C15 truncations %v", p))
				}
			}
		}
	}
}

func genName(t *rapid.T) string {
	num := func(n string) string {
		switch rapid.IntRange(0, 6).Draw(t, n+"Kind") {
		case 0:
			return rapid.SampledFrom([]string{"", "-1", "0", "4294967295", "4294967296", "18446744073709551616", "1e3", "+4", "007", "٣",
				"9223372036854775808", "-9223372036854775808", "1/2", "/", "10/", "/2", "20/2/2", "0x10", " 3"}).Draw(t, n)
		case 1:
			return fmt.Sprint(rapid.Int64().Draw(t, n))
		case 2:
			return fmt.Sprint(rapid.IntRange(0, 1<<20).Draw(t, n))
		default:
			return fmt.Sprint(rapid.SampledFrom([]int{10, 16, 20, 40, 60, 128, 192, 256, 512, 2, 4, 3, 8}).Draw(t, n))
		}
	}
	var sb strings.Builder
	sb.WriteString(rapid.SampledFrom([]string{"XMSS", "XMSSMT", "xmss", "", "XMSS-", "X"}).Draw(t, "alg"))
	sb.WriteString(rapid.SampledFrom([]string{"-", "-", "-", "-", "", "_", "--"}).Draw(t, "sep"))
	sb.WriteString(rapid.SampledFrom([]string{"SHA2", "SHAKE", "SHAKE256", "SHA3", ""}).Draw(t, "hash"))
	sb.WriteString(rapid.SampledFrom([]string{"_", "_", "_", "", "__"}).Draw(t, "sep"))
	sb.WriteString(num("h"))
	if rapid.Bool().Draw(t, "slash") {
		sb.WriteString("/" + num("d"))
	}
	sb.WriteString(rapid.SampledFrom([]string{"_", "_", "_", "", "__"}).Draw(t, "sep"))
	sb.WriteString(num("n"))
	for i := rapid.IntRange(0, 3).Draw(t, "suffixes"); i > 0; i-- {
		sb.WriteString(rapid.SampledFrom([]string{"_w4", "_w16", "_w256", "_NIST", "_RFC", "_w", "_", "_w0", "_w-1", "_w65536", "_w3", "_x",
			"_w99999999999999999999"}).Draw(t, "suffix"))
	}
	return sb.String()
}

func TestC15_Names(t *testing.T) {
	check(t, 24000, 400000, func(t *rapid.T) {
		name := genName(t)
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0:
			name = rapid.String().Draw(t, "name")
		case 1:
			b := []byte(name)
			if len(b) > 0 {
				b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] = rapid.Byte().Draw(t, "val")
			}
			name = string(b)
		}
		step("name %q", name)
		if e := protect(func() {
			p1, err := xmssmt.ParamsFromName2(name)
			if (err == nil) != (p1 != nil) {
				panic(fmt.Sprintf("ParamsFromName2: %v, %v", p1, err))
			}
			if err == nil {
				_ = p1.String()
				p1.MarshalBinary()
				label("name parses")
				nontrivial("C15 name " + name)
			}
			xmssmt.ParamsFromName(name)
			c1 := xmssmt.NewContextFromName(name)
			c2, err := xmssmt.NewContextFromName2(name)
			if (err == nil) != (c2 != nil) {
				panic(fmt.Sprintf("NewContextFromName2: %v, %v", c2, err))
			}
			if c1 != nil && c2 == nil {
				panic("NewContextFromName knows it, NewContextFromName2 does not")
			}
			for _, c := range []*xmssmt.Context{c1, c2} {
				if c != nil {
					_, _, _, _, _ = c.Name(), c.Oid(), c.MT(), c.FromNIST(), c.FromRFC()
					_ = c.Params().String()
					c.SignatureSize()
				}
			}
			xmssmt.HashFuncString(name)
		}); e != nil {
			t.Fatalf("name %q: %v", name, e)
		}
		// the text form of keys
		tx := []byte(name)
		if e := protect(func() {
			var pk xmssmt.PublicKey
			if err := pk.UnmarshalText(tx); err == nil {
				_, _ = pk.MarshalText()
			}
		}); e != nil {
			t.Fatalf("text %q: %v", name, e)
		}
		eval()
	})
}

// Text keys and OIDs.
func TestC15_TextOid(t *testing.T) {
	check(t, 8000, 200000, func(t *rapid.T) {
		p := genBase(t)
		p.D = rapid.IntRange(1, 4).Draw(t, "d")
		p.H = p.D * rapid.IntRange(1, 5).Draw(t, "th")
		good := base64.StdEncoding.EncodeToString(append(p.Code(), expand(1, 2*p.N)...))
		tx := []byte(good)
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 0:
			tx = tx[:rapid.IntRange(0, len(tx)-1).Draw(t, "cut")]
		case 1:
			tx[rapid.IntRange(0, len(tx)-1).Draw(t, "at")] = rapid.Byte().Draw(t, "val")
		case 2:
			i := rapid.IntRange(0, len(tx)).Draw(t, "at")
			tx = append(append(append([]byte(nil), tx[:i]...), rapid.SampledFrom([]string{"\n", " ", "=", "\r\n", "\x00"}).Draw(t, "ins")...), tx[i:]...)
		case 3:
			tx = []byte(base64.RawURLEncoding.EncodeToString(append(p.Code(), expand(1, 2*p.N)...)))
		case 4:
			tx = append(tx, tx...)
		}
		cp := string(tx)
		if e := protect(func() {
			var pk xmssmt.PublicKey
			if err := pk.UnmarshalText(tx); err == nil {
				label("text decodes")
				t2, err := pk.MarshalText()
				if err != nil {
					panic(err)
				}
				var pk2 xmssmt.PublicKey
				if err := pk2.UnmarshalText(t2); err != nil {
					panic(err)
				}
			}
			mt, oid := rapid.Bool().Draw(t, "mt"), uint32(rapid.IntRange(0, 80).Draw(t, "oid"))
			if rapid.IntRange(0, 3).Draw(t, "any") == 0 {
				oid = rapid.Uint32().Draw(t, "anyOid")
			}
			if c := xmssmt.NewContextFromOid(mt, oid); c != nil && c.Oid() != oid {
				panic(fmt.Sprintf("OID %x gives %x", oid, c.Oid()))
			}
		}); e != nil {
			t.Fatalf("text %q: %v", cp, e)
		}
		if string(tx) != cp {
			t.Fatalf("decoding changed its input")
		}
		eval()
		nontrivial(fmt.Sprintf("C15 text %s", cp))
	})
}

// Every four bytes that decode as parameters, followed by something.
func TestC15_AllCodes(t *testing.T) {
	rnd := rand.New(rand.NewPCG(uint64(baseSeed), uint64(shard)))
	body := expand(9, 3000)
	n := 0
	for v := 0; v < 1<<21; v++ {
		if !mine(v) {
			continue
		}
		if !thorough && rnd.IntN(8) != 0 {
			continue
		}
		b := append([]byte{0xea, byte(v >> 16), byte(v >> 8), byte(v)}, body[:rnd.IntN(len(body))]...)
		bad := ""
		if e := protect(func() {
			var p xmssmt.Params
			if p.UnmarshalBinary(b[:4]) != nil {
				return
			}
			n++
			var pk xmssmt.PublicKey
			pkErr := pk.UnmarshalBinary(b)
			var sig xmssmt.Signature
			sigErr := sig.UnmarshalBinary(b)
			if pkErr == nil {
				if out, err := pk.MarshalBinary(); err != nil || !bytes.Equal(out, b[:len(out)]) {
					bad = "public key"
				}
			}
			if sigErr == nil {
				_ = sig.String()
				if out, err := sig.MarshalBinary(); err != nil || !bytes.Equal(out, b[:len(out)]) {
					bad = "signature"
				}
			}
			if pkErr == nil && sigErr == nil && n%16 == 0 {
				if ok, err := pk.Verify(&sig, nil); ok || err == nil {
					bad = "verification"
				}
			}
		}); e != nil {
			t.Fatalf("%x (%d bytes): %v", b[:4], len(b), e)
		}
		if bad != "" {
			t.Fatalf("%x (%d bytes): wrong %s", b[:4], len(b), bad)
		}
		if v%1024 == 0 {
			step("code %x", v)
		}
	}
	evalN(n)
	nontrivial(fmt.Sprintf("C15 all codes, shard %d, %d valid", shard, n))
}
