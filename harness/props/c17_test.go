package props

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C17: names, OIDs and classification are consistent.

type docEntry struct {
	mt     bool
	oid    uint32
	name   string // as the library spells it
	p      P
	inRFC  bool
	inNIST bool
}

// docTable is written down from RFC 8391, sections 5.3 and 5.4, and SP
// 800-208, section 5: the hash, the size of digests and the heights, in the
// order in which the documents number them.
func docTable() (l []docEntry) {
	type fam struct {
		hash  string
		f     int
		bits  int
		first uint32
		nist  bool // document
		prf   bool // 4-byte domain separators
	}
	heights := []int{10, 16, 20}
	for _, f := range []fam{
		{"SHA2", ref.SHA2, 256, 0x01, false, false},
		{"SHA2", ref.SHA2, 512, 0x04, false, false},
		{"SHAKE", ref.SHAKE, 256, 0x07, false, false},
		{"SHAKE", ref.SHAKE, 512, 0x0a, false, false},
		{"SHA2", ref.SHA2, 192, 0x0d, true, true},
		{"SHAKE256", ref.SHAKE256, 256, 0x10, true, false},
		{"SHAKE256", ref.SHAKE256, 192, 0x13, true, true},
	} {
		for i, h := range heights {
			l = append(l, docEntry{false, f.first + uint32(i), fmt.Sprintf("XMSS-%s_%d_%d", f.hash, h, f.bits),
				P{Func: f.f, N: f.bits / 8, H: h, D: 1, W: 16, NIST: f.prf}, !f.nist, f.nist})
		}
	}
	shapes := [][2]int{{20, 2}, {20, 4}, {40, 2}, {40, 4}, {40, 8}, {60, 3}, {60, 6}, {60, 12}}
	for _, f := range []fam{
		{"SHA2", ref.SHA2, 256, 0x01, false, false},
		{"SHA2", ref.SHA2, 512, 0x09, false, false},
		{"SHAKE", ref.SHAKE, 256, 0x11, false, false},
		{"SHAKE", ref.SHAKE, 512, 0x19, false, false},
		{"SHA2", ref.SHA2, 192, 0x21, true, true},
		{"SHAKE256", ref.SHAKE256, 256, 0x29, true, false},
		{"SHAKE256", ref.SHAKE256, 192, 0x31, true, true},
	} {
		for i, s := range shapes {
			l = append(l, docEntry{true, f.first + uint32(i), fmt.Sprintf("XMSSMT-%s_%d/%d_%d", f.hash, s[0], s[1], f.bits),
				P{Func: f.f, N: f.bits / 8, H: s[0], D: s[1], W: 16, NIST: f.prf}, !f.nist, f.nist})
		}
	}
	return
}

// checkCtx compares a context with what the documents say of its parameters.
func checkCtx(t fatalT, how string, ctx *xmssmt.Context, p P, doc *docEntry) {
	t.Helper()
	if ctx == nil {
		t.Fatalf("%s: no context for %v", how, p)
	}
	for i := 0; i < 2; i++ { // asking again gives the same answer
		if ctx.Params() != lib(p) {
			t.Fatalf("%s: parameters %+v instead of %+v", how, ctx.Params(), lib(p))
		}
		if ctx.MT() != (p.D > 1) {
			t.Fatalf("%s: MT()=%v for d=%d", how, ctx.MT(), p.D)
		}
		name, oid, rfc, nist := "", uint32(0), false, false
		if doc != nil {
			name, oid, rfc, nist = doc.name, doc.oid, doc.inRFC, doc.inNIST
		}
		order := i
		if order == 0 {
			if ctx.FromRFC() != rfc {
				t.Fatalf("%s: FromRFC()=%v for %v", how, !rfc, p)
			}
			if ctx.FromNIST() != nist {
				t.Fatalf("%s: FromNIST()=%v for %v", how, !nist, p)
			}
		}
		if ctx.Name() != name {
			t.Fatalf("%s: %v is called %q, not %q", how, p, ctx.Name(), name)
		}
		if ctx.Oid() != oid {
			t.Fatalf("%s: %v has OID %#x, not %#x", how, p, ctx.Oid(), oid)
		}
		if ctx.FromRFC() != rfc || ctx.FromNIST() != nist {
			t.Fatalf("%s: %v is classified as RFC=%v NIST=%v", how, p, ctx.FromRFC(), ctx.FromNIST())
		}
		q := ctx.Params()
		if n, o := q.LookupNameAndOid(); n != name || o != oid {
			t.Fatalf("%s: %v looked up as %q, %#x", how, p, n, o)
		}
	}
	checkSizes(t, how, ctx, p)
}

// checkSizes compares the advertised sizes with those that follow from the
// parameters.
func checkSizes(t fatalT, how string, ctx *xmssmt.Context, p P) {
	t.Helper()
	q := ctx.Params()
	eq := func(what string, got, want int) {
		t.Helper()
		if got != want {
			t.Fatalf("%s: %v: %s is %d, should be %d", how, p, what, got, want)
		}
	}
	eq("SignatureSize", int(ctx.SignatureSize()), p.SigBytes())
	eq("WotsLogW", int(q.WotsLogW()), p.LogW())
	eq("WotsLen1", int(q.WotsLen1()), p.Len1())
	eq("WotsLen2", int(q.WotsLen2()), p.Len2())
	eq("WotsLen", int(q.WotsLen()), p.Len())
	eq("WotsSignatureSize", int(q.WotsSignatureSize()), p.WotsBytes())
	eq("PrivateKeySize", q.PrivateKeySize(), 3*p.N)
	if p.TH() < 24 {
		eq("BareSubTreeSize", q.BareSubTreeSize(), (1<<uint(p.TH()+1)-1)*p.N)
		eq("CachedSubTreeSize", q.CachedSubTreeSize(), (1<<uint(p.TH()+1)-1)*p.N+p.WotsBytes()+8)
	}
	if p.H <= 63 && q.MaxSignatureSeqNo() != p.Max() {
		t.Fatalf("%s: %v: MaxSignatureSeqNo()=%d", how, p, q.MaxSignatureSeqNo())
	}
}

func TestC17_Registry(t *testing.T) {
	doc := docTable()
	if len(doc) != 77 {
		infra("table has %d entries", len(doc))
	}
	byName := map[string]bool{}
	for i := range doc {
		d := &doc[i]
		byName[d.name] = true
		how := d.name
		checkCtx(t, how+" by name", xmssmt.NewContextFromName(d.name), d.p, d)
		c2, err := xmssmt.NewContextFromName2(d.name)
		if err != nil {
			t.Fatalf("%s: %v", how, err)
		}
		checkCtx(t, how+" by name (2)", c2, d.p, d)
		checkCtx(t, how+" by OID", xmssmt.NewContextFromOid(d.mt, d.oid), d.p, d)
		checkCtx(t, how+" by parameters", newCtx(t, d.p, 1), d.p, d)
		var q xmssmt.Params
		if err := q.UnmarshalBinary(d.p.Code()); err != nil {
			t.Fatalf("%s: %v", how, err)
		}
		c4, err2 := xmssmt.NewContext(q)
		if err2 != nil {
			t.Fatalf("%s: %v", how, err2)
		}
		checkCtx(t, how+" from the compressed parameters", c4, d.p, d)
		pp := xmssmt.ParamsFromName(d.name)
		if pp == nil || *pp != lib(d.p) {
			t.Fatalf("%s: ParamsFromName gives %+v", how, pp)
		}
		pp2, err := xmssmt.ParamsFromName2(d.name)
		if err != nil || *pp2 != lib(d.p) {
			t.Fatalf("%s: ParamsFromName2 gives %+v (%v)", how, pp2, err)
		}
		// What is handed out is the caller's: altering it alters nothing else.
		*pp, *pp2 = xmssmt.Params{}, xmssmt.Params{}
		if again := xmssmt.ParamsFromName(d.name); again == nil || *again != lib(d.p) {
			t.Fatalf("%s: ParamsFromName gives %+v after the caller altered what it gave before", how, again)
		}
		evalN(6)
		nontrivial("C17 " + d.name)
	}
	for mt := 0; mt < 2; mt++ {
		known := map[uint32]bool{}
		for _, d := range doc {
			if d.mt == (mt == 1) {
				known[d.oid] = true
			}
		}
		for oid := uint32(0); oid < 4096; oid++ {
			for _, o := range []uint32{oid, oid << 8, oid << 24, oid | 0xea000000} {
				if c := xmssmt.NewContextFromOid(mt == 1, o); (c != nil) != known[o] {
					t.Fatalf("OID %#x (mt %v): context %v", o, mt == 1, c)
				}
				eval()
			}
		}
	}
	names := xmssmt.ListNames()
	seen := map[string]bool{}
	for _, n := range names {
		if seen[n] {
			t.Fatalf("ListNames() lists %s twice", n)
		}
		seen[n] = true
		if !byName[n] {
			t.Fatalf("ListNames() lists %q, which is in neither document", n)
		}
		if xmssmt.NewContextFromName(n) == nil {
			t.Fatalf("%q of ListNames() can not be used", n)
		}
	}
	for _, d := range doc {
		if !seen[d.name] {
			t.Fatalf("ListNames() lacks %s", d.name)
		}
	}
	seen2 := map[string]bool{}
	seenP := map[xmssmt.Params]string{}
	for _, n := range xmssmt.ListNames2() {
		if seen2[n] {
			t.Fatalf("ListNames2() lists %s twice", n)
		}
		seen2[n] = true
		ctx, err := xmssmt.NewContextFromName2(n)
		if err != nil {
			t.Fatalf("%q of ListNames2() can not be used: %v", n, err)
		}
		q := ctx.Params()
		if q.String() != n {
			t.Fatalf("%q of ListNames2() has parameters printed as %q", n, q.String())
		}
		if o, ok := seenP[q]; ok {
			t.Fatalf("%q and %q of ListNames2() are the same", n, o)
		}
		seenP[q] = n
		p, ok := fromLib(q)
		if !ok {
			t.Fatalf("%q of ListNames2() has unsupported parameters %+v", n, q)
		}
		checkCtx(t, "ListNames2 "+n, ctx, p, find(doc, p))
		eval()
		nontrivial("C17 " + n)
	}
}

func fromLib(q xmssmt.Params) (P, bool) {
	b, err := q.MarshalBinary()
	if err != nil {
		return P{}, false
	}
	return paramsFromCode(b)
}

func find(doc []docEntry, p P) *docEntry {
	for i := range doc {
		if doc[i].p == p {
			return &doc[i]
		}
	}
	return nil
}

// Every supported parameter set: print, parse, compare, classify.
func TestC17_AllParams(t *testing.T) {
	doc := docTable()
	seen := map[string]xmssmt.Params{}
	i := 0
	for f := 0; f < 3; f++ {
		for _, n := range []int{16, 24, 32, 64} {
			for _, w := range []int{4, 16, 256} {
				for prf := 0; prf < 2; prf++ {
					for h := 0; h <= 63; h++ {
						for d := 1; d <= 63; d++ {
							if h%d != 0 {
								continue
							}
							p := P{Func: f, N: n, H: h, D: d, W: w, NIST: prf == 1}
							q := lib(p)
							name := q.String()
							if o, ok := seen[name]; ok {
								t.Fatalf("%+v and %+v are both called %q", o, q, name)
							}
							seen[name] = q
							i++
							if !mine(i) {
								continue
							}
							back, err := xmssmt.ParamsFromName2(name)
							if err != nil {
								t.Fatalf("%+v is called %q, which is not understood: %v", q, name, err)
							}
							if *back != q {
								t.Fatalf("%+v is called %q, which is understood as %+v", q, name, *back)
							}
							ctx, err := xmssmt.NewContextFromName2(name)
							if err != nil {
								t.Fatalf("%q can not be used: %v", name, err)
							}
							dd := find(doc, p)
							checkCtx(t, "by name", ctx, p, dd)
							checkCtx(t, "by parameters", newCtx(t, p, 1), p, dd)
							if (xmssmt.ParamsFromName(name) != nil) != (dd != nil) || (xmssmt.NewContextFromName(name) != nil) != (dd != nil) {
								t.Fatalf("%q: listed in the documents: %v, but found by name: %v", name, dd != nil, dd == nil)
							}
							eval()
							if i%50 == 0 {
								nontrivial("C17 " + name)
								step("%s", name)
							}
						}
					}
				}
			}
		}
	}
}

// Names put together from parts: what is understood is understood as written.
func TestC17_Parts(t *testing.T) {
	doc := docTable()
	check(t, 200000, 1000000, func(t *rapid.T) {
		num := func(name string, good ...int) string {
			switch rapid.IntRange(0, 9).Draw(t, name+"Kind") {
			case 0:
				return rapid.SampledFrom([]string{"", "0", "-1", "4294967296", "4294967297", "18446744073709551616",
					"99999999999999999999999", "1e3", "0x10", "x", "२", "16 ", " 16", "1_0"}).Draw(t, name)
			case 1:
				return fmt.Sprint(rapid.IntRange(0, 300).Draw(t, name))
			case 2:
				// as one of the good ones in fewer bits
				return fmt.Sprint(int64(rapid.SampledFrom(good).Draw(t, name)) + rapid.SampledFrom([]int64{1, 2, 8, 256, -1, -8}).Draw(t, name+"Times")<<
					rapid.SampledFrom([]uint{8, 16, 29, 32, 35, 40}).Draw(t, name+"Bits"))
			}
			return fmt.Sprint(rapid.SampledFrom(good).Draw(t, name))
		}
		alg := rapid.SampledFrom([]string{"XMSS", "XMSSMT", "XMSSMT"}).Draw(t, "alg")
		fn := rapid.SampledFrom([]string{"SHA2", "SHAKE", "SHAKE256"}).Draw(t, "fn")
		h := num("h", 10, 16, 20, 40, 60, 4, 6)
		d := ""
		hs := h
		if alg == "XMSSMT" {
			d = num("d", 2, 3, 4, 6, 8, 12, 1)
			hs = h + "/" + d
		}
		n := num("n", 256, 512, 192, 128)
		var opts []string
		nOpt := rapid.IntRange(0, 3).Draw(t, "nOpt")
		for i := 0; i < nOpt; i++ {
			opts = append(opts, rapid.SampledFrom([]string{"w4", "w16", "w256", "NIST", "RFC", "w", "w0", "w65552", "w-4", "", "x"}).Draw(t, "opt"))
		}
		name := strings.Join(append([]string{alg + "-" + fn, hs, n}, opts...), "_")
		var q *xmssmt.Params
		var err xmssmt.Error
		if e := protect(func() { q, err = xmssmt.ParamsFromName2(name) }); e != nil {
			t.Fatalf("%q: %v", name, e)
		}
		eval()
		ctx, err2 := xmssmt.NewContextFromName2(name)
		if err != nil {
			if err2 == nil {
				t.Fatalf("%q: no parameters (%v), but a context", name, err)
			}
			label("refused")
			return
		}
		// The fields say what the name says, exactly.
		eqNum := func(what, s string, got uint32, mul int64) {
			x, ok := new(big.Int).SetString(s, 10)
			if !ok {
				t.Fatalf("%q is understood, although %s is %q", name, what, s)
			}
			if ctx == nil {
				return // it may not be possible to tell
			}
			if x.Cmp(big.NewInt(int64(got)*mul)) != 0 {
				t.Fatalf("%q is understood with %s=%d", name, what, got)
			}
		}
		if ctx != nil && *q != ctx.Params() {
			t.Fatalf("%q gives parameters %+v, but a context of %+v", name, *q, ctx.Params())
		}
		eqNum("full height", h, q.FullHeight, 1)
		if alg == "XMSSMT" {
			eqNum("d", d, q.D, 1)
		} else if q.D != 1 {
			t.Fatalf("%q is understood with d=%d", name, q.D)
		}
		// (the library rounds sizes that are not whole bytes)
		if x, ok := new(big.Int).SetString(n, 10); ok && x.Bit(0)|x.Bit(1)|x.Bit(2) == 0 {
			eqNum("n", n, q.N, 8)
		}
		if map[string]xmssmt.HashFunc{"SHA2": 0, "SHAKE": 1, "SHAKE256": 2}[fn] != q.Func {
			t.Fatalf("%q is understood with hash function %v", name, q.Func)
		}
		if ctx == nil {
			label("no context")
			return
		}
		w, prf := map[string]bool{}, map[string]bool{}
		for _, o := range opts {
			if strings.HasPrefix(o, "w") {
				w[o] = true
			} else {
				prf[o] = true
			}
		}
		if len(w) == 0 {
			w["w16"] = true
		}
		if len(w) == 1 && !w[fmt.Sprintf("w%d", q.WotsW)] {
			t.Fatalf("%q is understood with w=%d", name, q.WotsW)
		}
		nist := q.N == 24
		if len(prf) == 1 {
			nist = prf["NIST"]
		}
		if len(prf) <= 1 && (q.Prf == xmssmt.NIST) != nist {
			t.Fatalf("%q is understood with prf=%v", name, q.Prf)
		}
		label("usable")
		nontrivial("C17 " + name)
		if p, ok := fromLib(ctx.Params()); ok {
			checkCtx(t, name, ctx, p, find(doc, p))
		}
	})
}
