package props

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C09: Close finishes, saves the state and frees the key.

func TestC09_Close(t *testing.T) {
	q, th := 800, 12000
	if raceBuild {
		q, th = 160, 3000
	}
	check(t, q, th, func(t *rapid.T) {
		p := genTall(t, 6, 1, 4, 3, 10)
		if rapid.IntRange(0, 2).Draw(t, "longer") == 0 && !raceBuild {
			// a subtree takes some milliseconds
			p = P{Func: rapid.IntRange(0, 2).Draw(t, "func"), N: 32, W: 16, D: rapid.IntRange(2, 4).Draw(t, "d")}
			p.H = p.D * 4
		}
		onDisk := rapid.IntRange(0, 2).Draw(t, "onDisk") == 0
		k := genKey(t, p)
		l := &life{t: t, p: p, k: k, used: map[uint64]bool{}}
		if onDisk {
			l.b = newFS()
		} else {
			l.b = &memBackend{}
		}
		defer l.end()
		var err xmssmt.Error
		threads := rapid.SampledFrom([]int{1, 1, 1, 0, 2}).Draw(t, "threads")
		l.sk, l.pk, err = l.b.create(newCtx(t, p, threads), k)
		if err != nil {
			l.fatalf("create: %v", err)
		}
		mem, _ := l.b.(*memBackend)
		j := newJitter(t)
		if mem != nil && rapid.Bool().Draw(t, "slowContainer") {
			mem.c.hook = func(string) { j.wait() }
		}
		rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
		for r := 0; r < rounds; r++ {
			if rapid.IntRange(0, 3).Draw(t, "precompute") > 0 {
				l.sk.EnableSubTreePrecomputation()
				l.log("precompute")
			}
			for i := rapid.IntRange(0, 1<<uint(min(p.TH(), 3))).Draw(t, "nSign"); i > 0; i-- {
				if uint64(l.sk.SeqNo()) >= p.Max() {
					break
				}
				if rapid.IntRange(0, 9).Draw(t, "failing") == 0 {
					l.sk.SignFrom(failingReader(t))
					l.log("failing sign")
					continue
				}
				sig, err := l.sk.Sign(nil)
				if err != nil {
					l.fatalf("Sign: %v", err)
				}
				l.released(uint64(sig.SeqNo()), mustBytes(t, sig), nil)
			}
			if rapid.Bool().Draw(t, "borrow") {
				left := p.Max() - uint64(l.sk.SeqNo())
				a := genAmount(t, 6, left)
				if uint64(a) <= left {
					if err := l.sk.BorrowExactly(a); err != nil {
						l.fatalf("BorrowExactly: %v", err)
					}
					l.log("borrow %d", a)
				}
			}
			next := l.sk.SeqNo()
			if rapid.Bool().Draw(t, "late") {
				l.sk.EnableSubTreePrecomputation()
				l.log("precompute")
			}
			if us := rapid.IntRange(0, 3000).Draw(t, "delay"); us > 100 {
				time.Sleep(time.Duration(us) * time.Microsecond)
			}
			busy := insideLibrary()
			l.log("close at %d", next)
			// several may close at the same time; others look at the key
			closers := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "closers")
			errs := make([]error, closers)
			oks := make([]bool, closers)
			var wg sync.WaitGroup
			for i := 0; i < closers; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					errs[i] = protect(func() {
						err := l.sk.Close()
						oks[i] = err == nil
					})
				}(i)
			}
			if rapid.Bool().Draw(t, "query") {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 5; i++ {
						l.sk.SeqNo()
						l.sk.BorrowedSeqNos()
						l.sk.CachedSubTrees()
						l.sk.UnretiredSeqNos()
					}
				}()
			}
			wg.Wait()
			closed := 0
			for i := range errs {
				if errs[i] != nil {
					l.fatalf("Close: %v", errs[i])
				}
				if oks[i] {
					closed++
				}
			}
			if closed == 0 {
				l.fatalf("Close fails (called %d times concurrently)", closers)
			}
			// From here on nothing may touch the storage.
			var bufs [][]byte
			if mem != nil {
				for _, b := range mem.c.cache {
					cp := append([]byte(nil), b...)
					bufs = append(bufs, b, cp)
				}
			}
			seq, lost, e := l.b.stored()
			if e != nil || seq != uint64(next) || lost != 0 {
				l.fatalf("closed at %d; stored: %d, %d lost, %v", next, seq, lost, e)
			}
			// the closed key refuses
			for i := 0; i < 4; i++ {
				switch rapid.IntRange(0, 4).Draw(t, "afterOp") {
				case 0:
					var sig *xmssmt.Signature
					var err xmssmt.Error
					l.noPanic("Sign on a closed key", func() { sig, err = l.sk.Sign(nil) })
					if err == nil {
						l.fatalf("the closed key signed with index %d", sig.SeqNo())
					}
				case 1:
					var err xmssmt.Error
					a := uint32(rapid.IntRange(1, 5).Draw(t, "amount"))
					l.noPanic("BorrowExactly on a closed key", func() { err = l.sk.BorrowExactly(a) })
					if err == nil {
						l.fatalf("the closed key reserved %d indices", a)
					}
				case 2:
					var err xmssmt.Error
					a := uint32(rapid.IntRange(1, 5).Draw(t, "amount"))
					l.noPanic("BorrowExactlyIfBelow on a closed key", func() { err = l.sk.BorrowExactlyIfBelow(a, 100) })
					if err == nil {
						l.fatalf("the closed key reserved %d indices", a)
					}
				case 3:
					l.noPanic("EnableSubTreePrecomputation on a closed key", func() { l.sk.EnableSubTreePrecomputation() })
				case 4:
					l.noPanic("Close on a closed key", func() { l.sk.Close() })
				}
			}
			if mem != nil || !rapid.Bool().Draw(t, "openAtOnce") {
				quiesce()
			}
			if mem != nil {
				for i := 0; i < len(bufs); i += 2 {
					if string(bufs[i]) != string(bufs[i+1]) {
						l.fatalf("a cached subtree was written to after Close")
					}
				}
				mem.c.logM.Lock()
				ac := append([]string(nil), mem.c.afterClose...)
				mem.c.logM.Unlock()
				for _, op := range ac {
					// closing again may be passed on to the container
					if op != "Close" {
						l.fatalf("after Close the storage is used: %v", ac)
					}
				}
				mem.c.checkOverlap(t)
			}
			if seq2, _, e := l.b.stored(); e != nil || seq2 != seq {
				l.fatalf("closed at %d; stored later: %d, %v", next, seq2, e)
			}
			sk, pk, lostSigs, err := l.b.open()
			if err != nil {
				l.fatalf("the key can not be opened again: %v", err)
			}
			l.sk = sk
			same(t, "public key", mustBytes(t, pk), k.PK())
			if sk.SeqNo() != next || lostSigs != 0 {
				l.fatalf("closed at %d; opened at %d, %d lost", next, sk.SeqNo(), lostSigs)
			}
			eval()
			if busy {
				nontrivial(fmt.Sprintf("C09 %v %v", p, l.hist))
				label("closed while the background was busy")
			}
			label("closed")
		}
		// and it works
		for i := 0; i < 2 && uint64(l.sk.SeqNo()) < p.Max(); i++ {
			at := uint64(l.sk.SeqNo())
			sig, err := l.sk.Sign(nil)
			if err != nil {
				l.fatalf("Sign: %v", err)
			}
			l.released(at, mustBytes(t, sig), nil)
		}
	})
}
