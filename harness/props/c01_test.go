package props

import (
	"fmt"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C01: public key and signatures equal the independent implementation.

func checkSpec(t *rapid.T, p P, nSigs int) {
	k := genKey(t, p)
	threads := rapid.SampledFrom([]int{0, 1, 2, 3}).Draw(t, "threads")
	ctx := newCtx(t, p, threads)
	ctr := newMemCtr()
	step("C01 %v", p)
	sk, pk, err := deriveInto(ctx, k, ctr)
	if err != nil {
		t.Fatalf("DeriveInto: %v", err)
	}
	same(t, "public key", mustBytes(t, pk), k.PK())
	same(t, "PublicKey()", mustBytes(t, sk.PublicKey()), k.PK())
	eval()
	for i := 0; i < nSigs; i++ {
		idx := genIndex(t, p)
		msg := genMsg(t)
		if rapid.Bool().Draw(t, "reload") {
			c2 := memCtrFor(k, idx)
			sk2, pk2, lost, err := xmssmt.LoadPrivateKeyFrom(c2)
			if err != nil {
				t.Fatalf("LoadPrivateKeyFrom: %v", err)
			}
			if lost != 0 {
				t.Fatalf("lost %d", lost)
			}
			sk2.Context().Threads = threads
			same(t, "reloaded public key", mustBytes(t, pk2), k.PK())
			sk = sk2
		} else {
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(idx))
		}
		step("C01 %v idx %d", p, idx)
		sig, err := sk.Sign(msg)
		if err != nil {
			t.Fatalf("Sign at %d of %d: %v", idx, p.Max(), err)
		}
		if uint64(sig.SeqNo()) != idx {
			t.Fatalf("index %d used, want %d", sig.SeqNo(), idx)
		}
		same(t, fmt.Sprintf("signature at index %d", idx), mustBytes(t, sig), k.Sign(idx, msg))
		eval()
		nontrivial(fmt.Sprintf("C01 %v idx=%d len(msg)=%d pk=%x", p, idx, len(msg), k.Root[:4]))
		label("w=%d", p.W)
		label("n=%d", p.N)
		label("hash=%d nist=%v", p.Func, p.NIST)
		if idx>>32 != 0 {
			label("idx>=2^32")
		}
		if p.D > 1 {
			label("multi-tree")
		}
	}
}

func TestC01_Spec(t *testing.T) {
	check(t, 640, 12000, func(t *rapid.T) {
		p := genParams(t, 25, 5, 0)
		checkSpec(t, p, 3)
	})
}

// Taller trees: several batches of leaves per worker, named heights.
func TestC01_Tall(t *testing.T) {
	check(t, 16, 160, func(t *rapid.T) {
		p := genShape(t, genBase(t), 700, 3, 10, 6)
		checkSpec(t, p, 2)
	})
}

// Keys with indices beyond 2^32: addresses and encodings of indices have two
// words.
func genHigh(t *rapid.T, budgetMs float64) P {
	p := genBase(t)
	if leafMs(p) > 6 {
		p.W = 16
	}
	if p.N == 64 {
		p.N = 32
	}
	leaf := leafMs(p)
	var ok []shape
	for th := 2; th <= 8; th++ {
		for d := (33 + th - 1) / th; th*d <= 63; d++ {
			if float64(d)*float64(int(1)<<uint(th))*leaf <= budgetMs || (th == 3 && d <= 12) {
				ok = append(ok, shape{th, d})
			}
		}
	}
	s := rapid.SampledFrom(ok).Draw(t, "shape")
	p.D, p.H = s.d, s.th*s.d
	return p
}

func TestC01_High(t *testing.T) {
	check(t, 48, 800, func(t *rapid.T) {
		checkSpec(t, genHigh(t, 150), 2)
	})
}
