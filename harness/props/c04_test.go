package props

import (
	"fmt"
	"sort"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C04: one-time signatures can not be extended.
//
// Seen from outside, a one-time signature reveals one value of each chain.
// The positions of these values in their chains are recovered with the secret
// seed.  Then for any two of them: if none of the positions of the one is
// smaller than that of the other, the first can be computed from the other.

// digitSum is what the checksum has to be a strictly decreasing function of.
func digitSum(pos []int, len1 int) int {
	s := 0
	for _, x := range pos[:len1] {
		s += x
	}
	return s
}

type revealed struct {
	what  string
	pos   []int
	sum   int
	check []int
}

// judge checks all pairs.
//
// For digests of which the digits of the one are nowhere smaller than those of
// the other, everything depends on the checksum chains: a larger digit sum
// needs a smaller position in one of these.  Whether two *particular* digests
// are so related does not matter here, provided that the checksum positions
// are a function of the digit sum; that is checked as well.
func judge(t *rapid.T, p P, list []revealed) {
	sort.Slice(list, func(i, j int) bool { return list[i].sum < list[j].sum })
	bySum := map[int][]int{}
	for _, r := range list {
		if c, ok := bySum[r.sum]; ok {
			if fmt.Sprint(c) != fmt.Sprint(r.check) {
				t.Fatalf("%v: the same digit sum %d gives the checksums %v and %v", p, r.sum, c, r.check)
			}
			continue
		}
		bySum[r.sum] = r.check
	}
	for i := range list {
		for j := i + 1; j < len(list); j++ {
			a, b := list[i], list[j] // a.sum <= b.sum
			if a.sum == b.sum {
				continue
			}
			less := false
			for c := range a.check {
				less = less || b.check[c] < a.check[c]
			}
			if !less {
				t.Fatalf("%v: the checksum positions %v for digit sum %d are nowhere smaller than %v for digit sum %d: "+
					"a one-time signature on a digest is extendable (%s, %s)", p, b.check, b.sum, a.check, a.sum, a.what, b.what)
			}
			evalN(1)
		}
	}
}

func TestC04_Chains(t *testing.T) {
	check(t, 480, 3000, func(t *rapid.T) {
		p := genBase(t)
		th := rapid.IntRange(1, 2).Draw(t, "th")
		p.D = rapid.IntRange(1, 2).Draw(t, "d")
		p.H = th * p.D
		k := genKey(t, p)
		idx := genIndex(t, p)
		if idx >= p.Max() {
			idx = 0
		}
		ctx := newCtx(t, p, 1)
		ctr := newMemCtr()
		sk, _, err := deriveInto(ctx, k, ctr)
		if err != nil {
			t.Fatalf("derive: %v", err)
		}
		// Many candidate messages; sign those with the most different sums,
		// and those with sums next to multiples of powers of w.
		sigR := k.Sign(idx, nil)[4+p.IndexBytes() : 4+p.IndexBytes()+p.N]
		type cand struct {
			msg []byte
			sum int
		}
		var cands []cand
		base := rapid.Uint64().Draw(t, "msgs")
		for i := 0; i < 1500; i++ {
			m := expand(base+uint64(i), 8)
			d := p.Digits(p.HMsg(sigR, k.Root, idx, m))
			cands = append(cands, cand{m, digitSum(d, p.Len1())})
		}
		sort.Slice(cands, func(i, j int) bool { return cands[i].sum < cands[j].sum })
		pick := map[int]bool{0: true, 1: true, len(cands) - 1: true, len(cands) - 2: true}
		n := rapid.IntRange(4, 16).Draw(t, "n")
		top := p.Len1() * (p.W - 1)
		for i := range cands {
			c := top - cands[i].sum // the checksum
			if len(pick) < n+6 && (c%p.W == 0 || c%p.W == p.W-1) && i%7 == 0 {
				pick[i] = true
			}
		}
		for i := 0; i < n; i++ {
			pick[rapid.IntRange(0, len(cands)-1).Draw(t, "pick")] = true
		}
		// two of equal sum
		for i := 0; i+1 < len(cands); i++ {
			if cands[i].sum == cands[i+1].sum {
				pick[i], pick[i+1] = true, true
				break
			}
		}
		adrs := ref.OTSAdrs(0, idx>>uint(p.TH()), uint32(idx&(1<<uint(p.TH())-1)))
		var list []revealed
		var order []int
		for i := range pick {
			order = append(order, i)
		}
		sort.Ints(order)
		for _, i := range order {
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(idx))
			step("C04 %v", p)
			sig, err := sk.Sign(cands[i].msg)
			if err != nil {
				t.Fatalf("Sign: %v", err)
			}
			b := mustBytes(t, sig)
			o := 4 + p.IndexBytes() + p.N
			if len(b) < o+p.WotsBytes() {
				t.Fatalf("signature of %d bytes", len(b))
			}
			pos := k.Positions(adrs, b[o:o+p.WotsBytes()])
			for c, x := range pos {
				if x < 0 {
					t.Fatalf("%v: chain %d of the one-time signature at index %d shows a value that is not on the chain", p, c, idx)
				}
			}
			list = append(list, revealed{fmt.Sprintf("message %x", cands[i].msg), pos, digitSum(pos, p.Len1()), pos[p.Len1():]})
			nontrivial(fmt.Sprintf("C04 %v idx=%d checksum=%d pk=%x", p, idx, top-cands[i].sum, k.Root[:4]))
		}
		// the signatures on the roots of subtrees
		if p.D > 1 {
			for tree := uint64(0); tree < 1<<uint(p.TH()); tree++ {
				i := tree << uint(p.TH())
				if i >= p.Max() {
					continue
				}
				sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(i))
				sig, err := sk.Sign(nil)
				if err != nil {
					t.Fatalf("Sign: %v", err)
				}
				b := mustBytes(t, sig)
				o := 4 + p.IndexBytes() + p.N + p.WotsBytes() + p.TH()*p.N
				pos := k.Positions(ref.OTSAdrs(1, 0, uint32(tree)), b[o:o+p.WotsBytes()])
				for c, x := range pos {
					if x < 0 {
						t.Fatalf("%v: chain %d of the signature on subtree %d shows a value that is not on the chain", p, c, tree)
					}
				}
				list = append(list, revealed{fmt.Sprintf("subtree %d", tree), pos, digitSum(pos, p.Len1()), pos[p.Len1():]})
			}
		}
		judge(t, p, list)
		label("n=%d w=%d", p.N, p.W)
	})
}
