package props

import (
	"fmt"
	"sort"
	"sync"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C21: a key stops at its capacity.

func TestC21_Capacity(t *testing.T) {
	check(t, 4800, 24000, func(t *rapid.T) {
		var p P
		if rapid.IntRange(0, 3).Draw(t, "big") == 0 {
			p = genParams(t, 10, 4, 0)
		} else {
			p = genLife(t, 8, 1, 3, 1, 6)
		}
		max := p.Max()
		l := newLife(t, p, rapid.IntRange(0, 2).Draw(t, "onDisk") == 0)
		defer l.end()
		pkb := l.k.PK()
		// where to begin
		next := uint64(0)
		if max > 12 || rapid.Bool().Draw(t, "late") {
			next = max - min(max, uint64(rapid.IntRange(0, 9).Draw(t, "fromEnd")))
			l.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(next))
			l.log("start at %d of %d", next, max)
		}
		if rapid.IntRange(0, 2).Draw(t, "precompute") == 0 {
			l.sk.EnableSubTreePrecomputation()
			l.log("precompute")
		}
		got := map[uint64]bool{}
		take := func(sig *xmssmt.Signature, msg []byte) {
			i := uint64(sig.SeqNo())
			if i >= max {
				l.fatalf("a signature with index %d; the capacity is %d", i, max)
			}
			if got[i] || i < next {
				l.fatalf("index %d is used twice", i)
			}
			got[i] = true
			if ok, err := xmssmt.Verify(pkb, mustBytes(t, sig), msg); !ok {
				l.fatalf("the signature at %d is refused: %v", i, err)
			}
			eval()
		}
		refused, failed := 0, false
		for steps := 0; steps < 60 && refused < 4; steps++ {
			switch pick(t, "op", "sign", 6, "par", 3, "borrow", 3, "reopen", 1, "crash", 1, "fault", 2) {
			case "fault": // the storage fails once
				mem, ok := l.b.(*memBackend)
				if !ok {
					continue
				}
				what := rapid.SampledFrom([]string{"BorrowSeqNos", "SetSeqNo", "SetSeqNo", "GetSeqNo"}).Draw(t, "which")
				before := rapid.Bool().Draw(t, "before")
				mem.c.fault = func(op string, b bool) xmssmt.Error {
					if op == what && b == before {
						return &ctrErr{"injected"}
					}
					return nil
				}
				left := max - (next + uint64(len(got)))
				if rapid.IntRange(0, 2).Draw(t, "signs") == 0 {
					sig, err := l.sk.Sign(nil)
					l.log("sign with %s failing: %v", what, err)
					failed = failed || err != nil
					if err == nil {
						take(sig, nil)
					}
				} else {
					a := genAmount(t, 8, left)
					l.log("borrow %d of %d with %s failing: %v", a, left, what, l.sk.BorrowExactly(a))
				}
				mem.c.fault = nil
				if s := mem.c.seqNo; s > max {
					l.fatalf("the stored index is %d, beyond the capacity %d", s, max)
				}
			case "sign":
				sig, err := l.sk.Sign(nil)
				l.log("sign: %v", err)
				if err != nil {
					if next+uint64(len(got)) < max {
						l.fatalf("refused to sign at %d of %d: %v", next+uint64(len(got)), max, err)
					}
					refused++
					continue
				}
				if want := next + uint64(len(got)); uint64(sig.SeqNo()) != want {
					l.fatalf("index %d is used, want %d", sig.SeqNo(), want)
				}
				take(sig, nil)
			case "par":
				n := rapid.IntRange(2, 6).Draw(t, "goroutines")
				l.log("%d goroutines", n)
				sigs := make([]*xmssmt.Signature, n)
				errs := make([]error, n)
				var wg sync.WaitGroup
				for g := 0; g < n; g++ {
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						errs[g] = protect(func() {
							s, err := l.sk.Sign([]byte{byte(g)})
							sigs[g] = s
							if err != nil {
								sigs[g] = nil
							}
						})
					}(g)
				}
				wg.Wait()
				left := max - (next + uint64(len(got)))
				made := 0
				for g := range sigs {
					if errs[g] != nil {
						l.fatalf("%v", errs[g])
					}
					if sigs[g] != nil {
						take(sigs[g], []byte{byte(g)})
						made++
					} else {
						refused++
					}
				}
				if uint64(made) != min(left, uint64(n)) {
					l.fatalf("%d signatures were left, %d goroutines made %d", left, n, made)
				}
			case "borrow":
				left := max - (next + uint64(len(got)))
				a := genAmount(t, 8, left)
				err := l.sk.BorrowExactly(a)
				l.log("borrow %d of %d: %v", a, left, err)
				if err != nil && uint64(a) <= left {
					l.fatalf("reserving %d of %d left: %v", a, left, err)
				}
			case "reopen":
				at := l.sk.SeqNo()
				l.log("reopen at %d", at)
				if len(got) == 0 && next != 0 {
					continue // nothing recorded yet
				}
				if err := l.sk.Close(); err != nil {
					l.fatalf("Close: %v", err)
				}
				var err xmssmt.Error
				l.sk, _, _, err = l.b.open()
				if err != nil {
					l.fatalf("reopening at %d of %d: %v", at, max, err)
				}
				if s := l.sk.SeqNo(); s < at || s > at+1 || s > at && !failed {
					l.fatalf("closed at %d, reopened at %d", at, s)
				} else if s > at {
					// The failed write took effect.
					got[uint64(at)] = true
				}
				failed = false
			case "crash":
				if len(got) == 0 && next != 0 {
					continue
				}
				l.log("crash")
				l.b.crash(l.sk)
				l.sk = nil
				sk, _, _, err := l.b.open()
				if err != nil {
					l.fatalf("opening after a loss of the process: %v", err)
				}
				l.sk = sk
				// reserved indices may be lost
				s := uint64(sk.SeqNo())
				if s < next+uint64(len(got)) {
					l.fatalf("restarted at %d, but %d was used", s, next+uint64(len(got))-1)
				}
				for i := next + uint64(len(got)); i < s && i < max; i++ {
					got[i] = true
				}
			}
		}
		if refused > 0 {
			nontrivial(fmt.Sprintf("C21 %v from %d: %v", p, next, l.hist))
			label("reached the end")
			var is []uint64
			for i := range got {
				is = append(is, i)
			}
			sort.Slice(is, func(a, b int) bool { return is[a] < is[b] })
			if uint64(len(is)) != max-next {
				l.fatalf("the key stopped after %d of the %d signatures that were left", len(is), max-next)
			}
			if s := uint64(l.sk.SeqNo()); s != max {
				l.fatalf("the key has ended at %d of %d", s, max)
			}
		}
	})
}

// Beyond the end.
func TestC21_Beyond(t *testing.T) {
	check(t, 1440, 7200, func(t *rapid.T) {
		p := genParams(t, 4, 3, 0)
		max := p.Max()
		l := newLife(t, p, rapid.IntRange(0, 3).Draw(t, "onDisk") == 0)
		defer l.end()
		if rapid.Bool().Draw(t, "borrowFirst") && max >= 2 {
			if err := l.sk.BorrowExactly(2); err != nil {
				l.fatalf("BorrowExactly(2): %v", err)
			}
			l.log("borrow 2")
		}
		var s uint64
		switch rapid.IntRange(0, 4).Draw(t, "where") {
		case 0, 1:
			s = max + uint64(rapid.IntRange(0, 3).Draw(t, "off"))
		case 2:
			s = ^uint64(0) - uint64(rapid.IntRange(0, 3).Draw(t, "off"))
		case 3:
			s = max + 1<<uint(rapid.IntRange(0, 63).Draw(t, "bit"))
		default:
			s = rapid.Uint64().Draw(t, "s")
		}
		if s < max {
			s = max
		}
		l.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(s))
		l.log("set to %d, capacity %d", s, max)
		if rapid.Bool().Draw(t, "precompute") {
			l.sk.EnableSubTreePrecomputation()
		}
		for i := 0; i < 3; i++ {
			if rapid.Bool().Draw(t, "borrow") {
				err := l.sk.BorrowExactly(uint32(rapid.IntRange(1, 5).Draw(t, "amount")))
				l.log("borrow: %v", err)
			}
			sig, err := l.sk.Sign(nil)
			if err == nil {
				l.fatalf("a signature with index %d; the capacity is %d", sig.SeqNo(), max)
			}
			eval()
		}
		nontrivial(fmt.Sprintf("C21 beyond %v %d", p, s))
	})
}
