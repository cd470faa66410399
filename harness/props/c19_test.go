package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C19: keys are a function of their seeds alone; fresh keys are fresh.

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}

// keyHome is a place for one key: a file or a container in memory.
type keyHome struct {
	dir  string
	path string
	mem  *memCtr
}

func newHome(t *rapid.T) *keyHome {
	if rapid.Bool().Draw(t, "onDisk") {
		d := tmpDir()
		return &keyHome{dir: d, path: filepath.Join(d, "key")}
	}
	return &keyHome{mem: newMemCtr()}
}
func (h *keyHome) derive(ctx *xmssmt.Context, a, b, c []byte) (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
	if h.mem != nil {
		return ctx.DeriveInto(h.mem, a, b, c)
	}
	return ctx.Derive(h.path, a, b, c)
}
func (h *keyHome) load() (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
	if h.mem != nil {
		h.mem = h.mem.reopened()
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(h.mem)
		return sk, pk, err
	}
	sk, pk, _, err := xmssmt.LoadPrivateKey(h.path)
	return sk, pk, err
}
func (h *keyHome) done() {
	if h.dir != "" {
		rmDir(h.dir)
	}
}

// The caller overwrites everything it passed in or got, as it goes along.
func TestC19_Buffers(t *testing.T) {
	check(t, 2800, 14000, func(t *rapid.T) {
		p := genLife(t, 8, 1, 4, 3, 8)
		k := genKey(t, p)
		h := newHome(t)
		defer h.done()
		ctx := newCtx(t, p, 1)
		cp := func(b []byte) []byte {
			return append(make([]byte, 0, len(b)+rapid.IntRange(0, 5).Draw(t, "cap")), b...)
		}
		seeds := [][]byte{cp(k.PubSeed), cp(k.SkSeed), cp(k.SkPrf)}
		var hist []string
		fatalf := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("%s\nhistory of %v: %v", fmt.Sprintf(f, a...), p, hist)
		}
		sk, pk, err := h.derive(ctx, seeds[0], seeds[1], seeds[2])
		if err != nil {
			fatalf("derive: %v", err)
		}
		defer func() {
			if sk != nil {
				sk.Close()
			}
		}()
		if !bytes.Equal(seeds[0], k.PubSeed) || !bytes.Equal(seeds[1], k.SkSeed) || !bytes.Equal(seeds[2], k.SkPrf) {
			fatalf("deriving the key altered the seeds")
		}
		same(t, "public key", mustBytes(t, pk), k.PK())
		type kept struct {
			sig *xmssmt.Signature
			enc []byte
			msg []byte
		}
		var sigs []kept
		idx := uint64(0)
		n := rapid.IntRange(4, 14).Draw(t, "n")
		for i := 0; i < n; i++ {
			op := pick(t, "op", "seeds", 3, "sign", 8, "pk", 2, "sigbytes", 2, "reopen", 2, "unmarshalled", 1, "params", 1)
			hist = append(hist, op)
			step("C19 %v %v", p, hist)
			switch op {
			case "seeds":
				for _, s := range seeds {
					if rapid.Bool().Draw(t, "this") {
						scribble(s)
					}
				}
			case "sign":
				if idx >= p.Max() {
					continue
				}
				m := genMsg(t)
				mc := append([]byte(nil), m...)
				sig, err := sk.Sign(mc)
				if err != nil {
					fatalf("Sign: %v", err)
				}
				if !bytes.Equal(m, mc) {
					fatalf("signing altered the message")
				}
				scribble(mc)
				enc := mustBytes(t, sig)
				if want := k.Sign(idx, m); !bytes.Equal(enc, want) {
					fatalf("signature %d is not the one of these seeds", idx)
				}
				idx++
				eval()
				sigs = append(sigs, kept{sig, append([]byte(nil), enc...), m})
				scribble(enc)
			case "pk":
				b := mustBytes(t, pk)
				scribble(b)
				b2, e := pk.MarshalText()
				if e != nil {
					fatalf("MarshalText: %v", e)
				}
				scribble(b2)
				q := sk.PublicKey()
				b3 := mustBytes(t, q)
				same(t, "public key", b3, k.PK())
				scribble(b3)
				// the object may be given another value
				if rapid.Bool().Draw(t, "reuse") {
					other := ref.NewKey(p, k.SkPrf, k.PubSeed, k.SkSeed)
					if e := q.UnmarshalBinary(other.PK()); e != nil {
						fatalf("UnmarshalBinary: %v", e)
					}
				}
				same(t, "public key", mustBytes(t, sk.PublicKey()), k.PK())
				same(t, "public key", mustBytes(t, pk), k.PK())
				eval()
			case "sigbytes":
				for _, s := range sigs {
					b := mustBytes(t, s.sig)
					if !bytes.Equal(b, s.enc) {
						fatalf("the encoding of signature %d has changed", s.sig.SeqNo())
					}
					scribble(b)
					if ok, err := pk.Verify(s.sig, s.msg); !ok {
						fatalf("signature %d is refused: %v", s.sig.SeqNo(), err)
					}
				}
			case "unmarshalled":
				b := append([]byte(nil), k.PK()...)
				var q xmssmt.PublicKey
				if e := q.UnmarshalBinary(b); e != nil {
					fatalf("UnmarshalBinary: %v", e)
				}
				scribble(b)
				same(t, "public key", mustBytes(t, &q), k.PK())
				for _, s := range sigs {
					b := append([]byte(nil), s.enc...)
					var x xmssmt.Signature
					if e := x.UnmarshalBinary(b); e != nil {
						fatalf("UnmarshalBinary: %v", e)
					}
					scribble(b)
					if ok, err := q.Verify(&x, s.msg); !ok {
						fatalf("a signature is refused after its buffer was overwritten: %v", err)
					}
					eval()
				}
			case "params":
				q := sk.Context().Params()
				q.N, q.FullHeight = 1, 3
				if sk.Context().Params() != lib(p) {
					fatalf("parameters changed")
				}
			case "reopen":
				if err := sk.Close(); err != nil {
					fatalf("Close: %v", err)
				}
				sk = nil
				sk, pk, err = h.load()
				if err != nil {
					sk = nil
					fatalf("open: %v", err)
				}
				sk.Context().Threads = 1
				same(t, "public key after reopening", mustBytes(t, pk), k.PK())
				if uint64(sk.SeqNo()) != idx {
					fatalf("next index %d instead of %d", sk.SeqNo(), idx)
				}
			}
		}
		nontrivial(fmt.Sprintf("C19 buffers %v disk=%v %v %x", p, h.mem == nil, hist, k.PK()[4:10]))
	})
}

// Same seeds, same key; another seed, another key.
func TestC19_Function(t *testing.T) {
	check(t, 2800, 14000, func(t *rapid.T) {
		p := genLife(t, 6, 1, 4, 2, 9)
		k := genKey(t, p)
		idx := genIndex(t, p)
		msg := genShortMsg(t)
		compute := func(a, b, c []byte) (pkb, sigb []byte) {
			h := newHome(t)
			defer h.done()
			cp := func(b []byte) []byte { return append([]byte(nil), b...) }
			sk, pk, err := h.derive(newCtx(t, p, rapid.IntRange(0, 2).Draw(t, "threads")), cp(a), cp(b), cp(c))
			if err != nil {
				t.Fatalf("derive: %v", err)
			}
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(idx))
			sig, err := sk.Sign(msg)
			if err != nil {
				t.Fatalf("Sign: %v", err)
			}
			pkb, sigb = mustBytes(t, pk), mustBytes(t, sig)
			if err := sk.Close(); err != nil {
				t.Fatalf("Close: %v", err)
			}
			return
		}
		step("C19 %v idx %d", p, idx)
		pk1, sig1 := compute(k.PubSeed, k.SkSeed, k.SkPrf)
		pk2, sig2 := compute(k.PubSeed, k.SkSeed, k.SkPrf)
		eval()
		same(t, "public key", pk1, k.PK())
		same(t, "signature", sig1, k.Sign(idx, msg))
		if !bytes.Equal(pk1, pk2) || !bytes.Equal(sig1, sig2) {
			t.Fatalf("%v: the same seeds give another key or signature (index %d)", p, idx)
		}
		// one bit of one seed
		which := rapid.IntRange(0, 2).Draw(t, "seed")
		s := [][]byte{k.PubSeed, k.SkSeed, k.SkPrf}
		bit := rapid.IntRange(0, 8*p.N-1).Draw(t, "bit")
		s[which] = flip(s[which], bit)
		pk3, sig3 := compute(s[0], s[1], s[2])
		what := []string{"public seed", "secret seed", "PRF seed"}[which]
		eval()
		if bytes.Equal(sig1, sig3) {
			t.Fatalf("%v: bit %d of the %s has no effect on the signature", p, bit, what)
		}
		if which < 2 && bytes.Equal(pk1, pk3) {
			t.Fatalf("%v: bit %d of the %s has no effect on the public key", p, bit, what)
		}
		if which == 2 && !bytes.Equal(pk1, pk3) {
			t.Fatalf("%v: bit %d of the %s changes the public key", p, bit, what)
		}
		o := ref.NewKey(p, s[0], s[1], s[2])
		same(t, "public key", pk3, o.PK())
		same(t, "signature", sig3, o.Sign(idx, msg))
		nontrivial(fmt.Sprintf("C19 function %v idx=%d bit %d of the %s, %x", p, idx, bit, what, pk1[4:10]))
		label("%s", what)
	})
}

// Seeds of a wrong size are refused; the storage is not touched.
func TestC19_Sizes(t *testing.T) {
	check(t, 6000, 30000, func(t *rapid.T) {
		p := genLife(t, 4, 1, 3, 2, 6)
		k := genKey(t, p)
		bad := [][]byte{k.PubSeed, k.SkSeed, k.SkPrf}
		which := rapid.IntRange(0, 2).Draw(t, "seed")
		n := rapid.SampledFrom([]int{0, 1, p.N - 1, p.N + 1, 2 * p.N, 3 * p.N, p.N / 2, p.N - 8, p.N + 8, 16, 24, 32, 64, 256 + p.N}).Draw(t, "size")
		if n == p.N {
			n++
		}
		bad[which] = expand(7, n)
		if n == 0 && rapid.Bool().Draw(t, "nil") {
			bad[which] = nil
		}
		if rapid.IntRange(0, 2).Draw(t, "compensate") == 0 && 3*p.N-n-p.N >= 0 {
			// the sizes may be right in sum
			o := (which + 1) % 3
			if 2*p.N-n > 0 {
				bad[o] = expand(8, 2*p.N-n)
			}
		}
		exists := rapid.Bool().Draw(t, "exists")
		sizes := fmt.Sprintf("%d,%d,%d", len(bad[0]), len(bad[1]), len(bad[2]))
		step("C19 %v seeds of %s bytes", p, sizes)
		old := genKey(t, p)
		eval()
		if rapid.Bool().Draw(t, "onDisk") {
			dir := tmpDir()
			defer rmDir(dir)
			path := filepath.Join(dir, "key")
			if exists {
				sk, _, err := derive(newCtx(t, p, 1), old, path)
				if err != nil {
					t.Fatalf("derive: %v", err)
				}
				if _, err := sk.Sign(nil); err != nil && p.Max() > 0 {
					t.Fatalf("Sign: %v", err)
				}
				if err := sk.Close(); err != nil {
					t.Fatalf("Close: %v", err)
				}
			}
			before := dirState(dir)
			var err xmssmt.Error
			if e := protect(func() { _, _, err = newCtx(t, p, 1).Derive(path, bad[0], bad[1], bad[2]) }); e != nil {
				t.Fatalf("%v, seeds of %s bytes: %v", p, sizes, e)
			}
			if err == nil {
				t.Fatalf("%v: seeds of %s bytes are accepted", p, sizes)
			}
			if err.Locked() {
				t.Fatalf("%v: seeds of %s bytes: %v", p, sizes, err)
			}
			if after := dirState(dir); after != before {
				t.Fatalf("%v: seeds of %s bytes are refused, but the files changed\nbefore %s\nafter  %s", p, sizes, before, after)
			}
			if exists {
				sk, pk, lost, err := xmssmt.LoadPrivateKey(path)
				if err != nil {
					t.Fatalf("%v: after refused seeds the key can not be opened: %v", p, err)
				}
				same(t, "public key", mustBytes(t, pk), old.PK())
				if lost != 0 || uint64(sk.SeqNo()) != min(1, p.Max()) {
					t.Fatalf("%v: after refused seeds: index %d, %d lost", p, sk.SeqNo(), lost)
				}
				sk.Close()
			}
			nontrivial(fmt.Sprintf("C19 sizes %v disk exists=%v %s", p, exists, sizes))
			return
		}
		c := newMemCtr()
		if exists {
			c = memCtrFor(old, 0)
		}
		var err xmssmt.Error
		if e := protect(func() { _, _, err = newCtx(t, p, 1).DeriveInto(c, bad[0], bad[1], bad[2]) }); e != nil {
			t.Fatalf("%v, seeds of %s bytes: %v", p, sizes, e)
		}
		if err == nil {
			t.Fatalf("%v: seeds of %s bytes are accepted", p, sizes)
		}
		for _, op := range c.log {
			switch op {
			case "Initialized", "CacheInitialized", "HasSubTree", "ListSubTrees", "GetSeqNo", "GetPrivateKey":
			default:
				t.Fatalf("%v: seeds of %s bytes are refused, but the container was called: %v", p, sizes, c.log)
			}
		}
		nontrivial(fmt.Sprintf("C19 sizes %v memory exists=%v %s", p, exists, sizes))
	})
}

// dirState describes all files below a directory.
func dirState(dir string) string {
	var s bytes.Buffer
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return nil
		}
		b, _ := os.ReadFile(path)
		if len(b) > 200 {
			fmt.Fprintf(&s, "%s: %d bytes, %x... %x; ", filepath.Base(path), len(b), b[:16], sum64(b))
		} else {
			fmt.Fprintf(&s, "%s: %x; ", filepath.Base(path), b)
		}
		return nil
	})
	return s.String()
}

// Generated keys: the three seeds of all keys are new.
func TestC19_Fresh(t *testing.T) {
	type block [8]byte
	seen := map[block]string{}
	ones := map[string]int{}  // per parameters n, seed and bit: how often it was set
	count := map[string]int{} // per n: keys
	keys := 0
	names := []string{"XMSSMT-SHA2_6/3_256", "XMSS-SHA2_2_128", "XMSSMT-SHAKE_4/2_512_w4", "XMSSMT-SHAKE256_20/10_192_w4", "XMSSMT-SHA2_20/10_128"}
	check(t, 6400, 32000, func(t *rapid.T) {
		p := genLife(t, 3, 1, 2, 2, 4)
		dir := tmpDir()
		defer rmDir(dir)
		path := filepath.Join(dir, "key")
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		var err xmssmt.Error
		if rapid.IntRange(0, 3).Draw(t, "byName") == 0 {
			name := rapid.SampledFrom(names).Draw(t, "name")
			q, e := xmssmt.ParamsFromName2(name)
			if e != nil {
				t.Fatalf("%s: %v", name, e)
			}
			p, _ = fromLib(*q)
			sk, pk, err = xmssmt.GenerateKeyPair(name, path)
		} else {
			ctx := newCtx(t, p, 1)
			if rapid.Bool().Draw(t, "twice") { // with the same context
				s0, _, e := ctx.GenerateKeyPair(filepath.Join(dir, "first"))
				if e != nil {
					t.Fatalf("GenerateKeyPair: %v", e)
				}
				s0.Close()
			}
			sk, pk, err = ctx.GenerateKeyPair(path)
		}
		if err != nil {
			t.Fatalf("GenerateKeyPair: %v", err)
		}
		defer sk.Close()
		eval()
		keys++
		for _, f := range []string{"first", "key"} {
			kf, e := readKeyFile(filepath.Join(dir, f))
			if e != nil {
				if f == "first" && os.IsNotExist(e) {
					continue
				}
				t.Fatalf("key file: %v", e)
			}
			k := ref.NewKey(p, kf.Sk[2*p.N:], kf.Sk[:p.N], kf.Sk[p.N:2*p.N])
			if f == "key" {
				same(t, "public key", mustBytes(t, pk), k.PK())
			}
			ns := fmt.Sprintf("n%d", p.N)
			count[ns]++
			for s, b := range [][]byte{k.PubSeed, k.SkSeed, k.SkPrf} {
				for i := 0; i+8 <= len(b); i += 8 {
					where := fmt.Sprintf("bytes %d-%d of the %s of key %d", i, i+7, []string{"public seed", "secret seed", "PRF seed"}[s], keys)
					var bl block
					copy(bl[:], b[i:])
					// (the probability of a collision is below 2^-30)
					if o, ok := seen[bl]; ok {
						t.Fatalf("%s equal %s", where, o)
					}
					seen[bl] = where
				}
				for i := 0; i < 8*len(b); i++ {
					if b[i/8]>>uint(i%8)&1 == 1 {
						ones[fmt.Sprintf("%s %d %d", ns, s, i)]++
					}
				}
			}
			nontrivial(fmt.Sprintf("C19 fresh %v %x", p, kf.Sk))
		}
	})
	if t.Failed() {
		return
	}
	for ns, c := range count {
		if c < 64 { // a bit is the same 64 times by chance: 2^-63
			continue
		}
		var n int
		fmt.Sscanf(ns, "n%d", &n)
		for s := 0; s < 3; s++ {
			for i := 0; i < 8*n; i++ {
				if x := ones[fmt.Sprintf("%s %d %d", ns, s, i)]; x == 0 || x == c {
					t.Fatalf("bit %d of seed %d is the same in %d generated keys (%s)", i, s, c, ns)
				}
			}
		}
	}
}
