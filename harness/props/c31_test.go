package props

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	old "verif/harness/old"
)

// C31: keys, signatures and files of earlier releases stay usable, and those of
// this one can be used by earlier ones.  verif/harness/old is a copy of the
// library as it was at the pinned commit.

func oldParams(p P) old.Params {
	q := lib(p)
	return old.Params{Func: old.HashFunc(q.Func), N: q.N, FullHeight: q.FullHeight, D: q.D, WotsW: q.WotsW,
		Prf: old.PrfConstruction(q.Prf)}
}

// oldIsRight tells whether the earlier release is known to compute the parameters
// right (it did not for all of those that are in no standard).
func oldIsRight(p P) bool {
	return p.W != 256 && !p.NIST && (p.N == 32 || p.N == 64)
}

func genOldLife(t *rapid.T, maxTH int) P {
	for {
		p := genLife(t, 6, 1, maxTH, 2, 9)
		p.NIST = false
		if p.N != 64 {
			p.N = 32
		}
		if p.W == 256 {
			p.W = 16
		}
		if oldIsRight(p) {
			return p
		}
	}
}

// cacheFile is what is in a cache file.
type cacheFile struct {
	magic     string
	version   byte
	alignment uint32
	trees     map[xmssmt.SubTreeAddress][]byte
}

// parseCacheFile reads a cache file, of either format, by its layout.
func parseCacheFile(b []byte, treeSize int) (c cacheFile, err error) {
	if len(b) < 12 {
		return c, fmt.Errorf("%d bytes", len(b))
	}
	be := binary.BigEndian
	c.magic = hex.EncodeToString(b[:8])
	n := be.Uint32(b[8:])
	switch c.magic {
	case "e77957607ef79446":
		c.alignment = 4096
	case "5a11d7cf4a1f6314":
		if len(b) < 17 {
			return c, fmt.Errorf("%d bytes", len(b))
		}
		c.version, c.alignment = b[12], be.Uint32(b[13:])
		if c.version != 1 {
			return c, fmt.Errorf("version %d", c.version)
		}
		if c.alignment == 0 {
			c.alignment = 4096
		}
	default:
		return c, fmt.Errorf("magic %s", c.magic)
	}
	c.trees = map[xmssmt.SubTreeAddress][]byte{}
	a := int(c.alignment)
	stride := (13 + treeSize + a - 1) / a * a
	for i := 0; i < int(n); i++ {
		o := a + i*stride
		if len(b) < o+13+treeSize {
			return c, fmt.Errorf("subtree %d of %d is beyond the end", i, n)
		}
		switch b[o] {
		case 0:
		case 1:
			addr := xmssmt.SubTreeAddress{Layer: be.Uint32(b[o+1:]), Tree: be.Uint64(b[o+5:])}
			if c.trees[addr] != nil {
				return c, fmt.Errorf("subtree %v is there twice", addr)
			}
			c.trees[addr] = b[o+13 : o+13+treeSize]
		default:
			return c, fmt.Errorf("mark %d of subtree %d", b[o], i)
		}
	}
	return
}

func TestC31_Releases(t *testing.T) {
	check(t, 1200, 16000, func(t *rapid.T) {
		p := genOldLife(t, 4)
		l := &life{t: t, p: p, k: genKey(t, p), used: map[uint64]bool{}, b: newFS()}
		defer func() { l.b.done() }()
		fs := l.b.(*fsBackend)
		var oldPk old.PublicKey
		// both judge a signature
		judge := func(idx uint64, sig, msg []byte, by string) {
			l.released(idx, sig, msg)
			if ok, err := old.Verify(l.k.PK(), sig, msg); !ok {
				l.fatalf("the signature with index %d by %s is refused by the earlier release: %v", idx, by, err)
			}
		}
		exists := false
		sides := ""
		phases := rapid.IntRange(2, 5).Draw(t, "phases")
		for i := 0; i < phases; i++ {
			byOld := rapid.Bool().Draw(t, "old")
			name := map[bool]string{true: "old", false: "new"}[byOld]
			sides += name[:1]
			if exists {
				if seq, _, err := fs.stored(); err != nil {
					l.fatalf("%v", err)
				} else if seq >= p.Max() {
					break // (the earlier release does not know when to stop)
				}
			}
			var wantSeq uint64
			var wantLost uint32
			if exists {
				kf, err := readKeyFile(fs.path)
				if err != nil {
					l.fatalf("%v", err)
				}
				wantSeq, wantLost = kf.SeqNo, kf.Borrowed
				if !bytes.Equal(kf.Sk, l.k.SkBytes()) || kf.Params != p {
					l.fatalf("the key file has changed")
				}
				switch rapid.IntRange(0, 5).Draw(t, "cache") {
				case 0:
					os.Remove(fs.path + ".cache")
					l.log("(cache removed)")
				case 1:
					// the first format of cache files
					b, err := os.ReadFile(fs.path + ".cache")
					if err == nil && len(b) >= 4096 && binary.BigEndian.Uint32(b[13:]) == 4096 {
						m, _ := hex.DecodeString("e77957607ef79446")
						copy(b, m)
						copy(b[12:17], make([]byte, 5))
						os.WriteFile(fs.path+".cache", b, 0600)
						l.log("(cache of the first format)")
					}
				}
			}
			abandon := rapid.IntRange(0, 3).Draw(t, "abandon") == 0
			nSign := rapid.IntRange(0, 1+2<<uint(p.TH())).Draw(t, "sign")
			borrow := uint32(0)
			if rapid.IntRange(0, 2).Draw(t, "borrows") == 0 {
				borrow = uint32(rapid.IntRange(1, 5).Draw(t, "borrow"))
			}
			l.log("%s: sign %d, borrow %d, abandon %v", name, nSign, borrow, abandon)
			if byOld {
				var sk *old.PrivateKey
				var lost uint32
				var err old.Error
				if !exists {
					ctx, e := old.NewContext(oldParams(p))
					if e != nil {
						l.fatalf("%v", e)
					}
					ctx.Threads = 1
					var pk *old.PublicKey
					sk, pk, err = ctx.Derive(fs.path, append([]byte(nil), l.k.PubSeed...), append([]byte(nil), l.k.SkSeed...), append([]byte(nil), l.k.SkPrf...))
					if err != nil {
						infra("the earlier release can not create a key: %v", err)
					}
					oldPk = *pk
				} else {
					if _, e := os.Stat(fs.path + ".cache"); e != nil {
						continue // it does not work without
					}
					var pk *old.PublicKey
					sk, pk, lost, err = old.LoadPrivateKey(fs.path)
					if err != nil {
						l.fatalf("the earlier release can not open the key: %v", err)
					}
					oldPk = *pk
					if uint64(sk.SeqNo()) != wantSeq || lost != wantLost {
						l.fatalf("the earlier release starts at %d (%d lost), stored: %d (%d lost)", sk.SeqNo(), lost, wantSeq, wantLost)
					}
				}
				same(t, "public key of the earlier release", mustBytes(t, &oldPk), l.k.PK())
				if borrow > 0 && uint64(sk.SeqNo())+uint64(borrow) < p.Max() {
					if err := sk.BorrowExactly(borrow); err != nil {
						l.fatalf("old: borrow: %v", err)
					}
				}
				for j := 0; j < nSign && uint64(sk.SeqNo()) < p.Max(); j++ {
					msg := []byte{byte(i), byte(j)}
					sig, err := sk.Sign(msg)
					if err != nil {
						l.fatalf("the earlier release can not sign: %v", err)
					}
					judge(uint64(sig.SeqNo()), mustBytes(t, sig), msg, "old")
				}
				if abandon {
					moveAway(fs, func() { sk.Close() })
				} else if err := sk.Close(); err != nil {
					l.fatalf("the earlier release can not close: %v", err)
				}
			} else {
				var sk *xmssmt.PrivateKey
				var pk *xmssmt.PublicKey
				var lost uint32
				var err xmssmt.Error
				if !exists {
					sk, pk, err = fs.create(newCtx(t, p, 1), l.k)
				} else {
					sk, pk, lost, err = fs.open()
				}
				if err != nil {
					l.fatalf("the key can not be opened (or created): %v", err)
				}
				sk.Context().Threads = 1
				same(t, "public key", mustBytes(t, pk), l.k.PK())
				if exists && (uint64(sk.SeqNo()) != wantSeq || lost != wantLost) {
					l.fatalf("starts at %d (%d lost), stored: %d (%d lost)", sk.SeqNo(), lost, wantSeq, wantLost)
				}
				if rapid.IntRange(0, 4).Draw(t, "precompute") == 0 {
					sk.EnableSubTreePrecomputation()
				}
				if borrow > 0 && uint64(sk.SeqNo())+uint64(borrow) < p.Max() {
					if err := sk.BorrowExactly(borrow); err != nil {
						l.fatalf("borrow: %v", err)
					}
				}
				for j := 0; j < nSign && uint64(sk.SeqNo()) < p.Max(); j++ {
					msg := []byte{byte(i), byte(j)}
					sig, err := sk.Sign(msg)
					if err != nil {
						l.fatalf("sign: %v", err)
					}
					judge(uint64(sig.SeqNo()), mustBytes(t, sig), msg, "this release")
				}
				quiesce()
				if abandon {
					moveAway(fs, func() { sk.Close() })
				} else if err := sk.Close(); err != nil {
					l.fatalf("close: %v", err)
				}
			}
			exists = true
			l.covered("after a phase")
			kf, err := readKeyFile(fs.path)
			if err != nil {
				l.fatalf("%v", err)
			}
			if !abandon && !byOld && kf.Borrowed != 0 {
				l.fatalf("%d lost signatures recorded after closing", kf.Borrowed)
			}
			b, err := os.ReadFile(fs.path + ".cache")
			if err != nil {
				l.fatalf("%v", err)
			}
			q := lib(p)
			if _, err := parseCacheFile(b, q.CachedSubTreeSize()); err != nil {
				l.fatalf("the cache file does not follow its format: %v", err)
			}
			eval()
		}
		nontrivial(fmt.Sprintf("C31 %v", l.hist))
		label("%d releases alternate: %v", len(sides), bytes.Contains([]byte(sides), []byte("on")) || bytes.Contains([]byte(sides), []byte("no")))
	})
}

// moveAway lets the key be found as if its process was lost now.
func moveAway(fs *fsBackend, cl func()) {
	from := fs.path
	fs.n++
	fs.path = filepath.Join(fs.dir, fmt.Sprintf("key%d", fs.n))
	copyKey(from, fs.path)
	cl()
	for _, s := range []string{"", ".cache", ".tmp", ".lock"} {
		os.Remove(from + s)
	}
}

// Encoded objects, names and numbers mean the same to both releases.
func TestC31_Encodings(t *testing.T) {
	names := xmssmt.ListNames()
	for _, n := range old.ListNames() {
		found := false
		for _, m := range names {
			found = found || m == n
		}
		if !found {
			t.Fatalf("the instance %s is not listed any more", n)
		}
		a, b := old.NewContextFromName(n), xmssmt.NewContextFromName(n)
		if b == nil {
			t.Fatalf("the name %s is not known any more", n)
		}
		ap, bp := a.Params(), b.Params()
		ab, _ := ap.MarshalBinary()
		bb, err := bp.MarshalBinary()
		if err != nil || !bytes.Equal(ab, bb) {
			t.Fatalf("the name %s stands for %x, not %x", n, bb, ab)
		}
		if a.Oid() != b.Oid() || a.MT() != b.MT() {
			t.Fatalf("the identifier of %s is %d, not %d", n, b.Oid(), a.Oid())
		}
		eval()
	}
	check(t, 1200, 16000, func(t *rapid.T) {
		p := genOldLife(t, 3)
		k := genKey(t, p)
		idx := genIndex(t, p)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(memCtrFor(k, idx))
		if err != nil {
			t.Fatalf("load: %v", err)
		}
		defer sk.Close()
		msg := genMsg(t)
		sig, err := sk.Sign(msg)
		if err != nil {
			t.Fatalf("sign: %v", err)
		}
		step("C31 %v %d", p, idx)
		bs, bp := mustBytes(t, sig), mustBytes(t, pk)
		var osig old.Signature
		var opk old.PublicKey
		if err := osig.UnmarshalBinary(bs); err != nil {
			t.Fatalf("%v: the earlier release can not read the signature: %v", p, err)
		}
		if err := opk.UnmarshalBinary(bp); err != nil {
			t.Fatalf("%v: the earlier release can not read the public key: %v", p, err)
		}
		same(t, "signature", mustBytes(t, &osig), bs)
		same(t, "public key", mustBytes(t, &opk), bp)
		tx, e := pk.MarshalText()
		ox, e2 := opk.MarshalText()
		if e != nil || e2 != nil || !bytes.Equal(tx, ox) {
			t.Fatalf("%v: the public key as text: %s, formerly: %s", p, tx, ox)
		}
		var pk2 xmssmt.PublicKey
		if err := pk2.UnmarshalText(ox); err != nil {
			t.Fatalf("%v: the text form of the earlier release can not be read: %v", p, err)
		}
		if ok, err := opk.Verify(&osig, msg); !ok {
			t.Fatalf("%v: the earlier release refuses the signature: %v", p, err)
		}
		if uint64(osig.SeqNo()) != idx {
			t.Fatalf("%v: index %d is %d to the earlier release", p, idx, osig.SeqNo())
		}
		q, oq := lib(p), oldParams(p)
		if q.String() != oq.String() {
			t.Fatalf("%v is now called %s", oq, q)
		}
		eval()
		nontrivial(fmt.Sprintf("C31 encodings %v %d %d", p, idx, len(msg)))
	})
}
