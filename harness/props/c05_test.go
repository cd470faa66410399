package props

import (
	"fmt"
	"os"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C05: no index is used twice.

func TestC05_Histories(t *testing.T) {
	check(t, 3200, 30000, func(t *rapid.T) {
		p := genTall(t, 8, 1, 3, 3, 8)
		onDisk := rapid.IntRange(0, 3).Draw(t, "onDisk") > 0
		l := newLife(t, p, onDisk)
		defer l.end()
		if rapid.IntRange(0, 2).Draw(t, "start") == 0 {
			// begin somewhere else
			s := genIndex(t, p)
			l.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(s))
			l.log("start at %d", s)
		}
		reopened, crashed, borrowed := 0, 0, 0
		live := func() bool { return l.sk != nil }
		open := func() {
			var pk2 *xmssmt.PublicKey
			var err xmssmt.Error
			l.sk, pk2, _, err = l.b.open()
			if err != nil {
				l.fatalf("open: %v", err)
			}
			same(t, "public key after opening", mustBytes(t, pk2), l.k.PK())
			if s := uint64(l.sk.SeqNo()); s < l.next {
				l.fatalf("opened at %d although %d was released", s, l.next-1)
			}
		}
		n := rapid.IntRange(20, 60).Draw(t, "n")
		for i := 0; i < n; i++ {
			op := rapid.IntRange(0, 18).Draw(t, "op")
			if !live() {
				switch op {
				case 0, 1:
					l.b.loseCache(t)
					l.log("damage cache")
				case 2:
					if fs, ok := l.b.(*fsBackend); ok {
						// leftovers of an interrupted write
						os.WriteFile(fs.path+".tmp", expand(uint64(i), rapid.IntRange(0, 200).Draw(t, "junk")), 0600)
						l.log("leftover")
					}
				case 3, 4, 5:
					if fs, ok := l.b.(*fsBackend); ok && l.next < l.p.Max() {
						msg := genShortMsg(t)
						l.log("one-shot sign")
						b, err := xmssmt.Sign(fs.path, msg)
						if err != nil {
							if seq, _, _ := l.b.stored(); seq >= p.Max() {
								continue
							}
							l.fatalf("Sign(path): %v", err)
						}
						var sig xmssmt.Signature
						if e := sig.UnmarshalBinary(b); e != nil {
							l.fatalf("undecodable: %v", e)
						}
						l.released(uint64(sig.SeqNo()), b, msg)
						l.covered("one-shot sign")
					}
				default:
					l.log("open")
					open()
				}
				continue
			}
			switch op {
			case 0, 1, 2, 3, 4, 5:
				msg := genShortMsg(t)
				sig, err := l.sk.Sign(msg)
				if err != nil {
					l.log("sign: %v", err)
					if uint64(l.sk.SeqNo()) < p.Max() {
						l.fatalf("Sign failed at %d of %d: %v", l.sk.SeqNo(), p.Max(), err)
					}
					break
				}
				l.log("sign=%d", sig.SeqNo())
				l.released(uint64(sig.SeqNo()), mustBytes(t, sig), msg)
			case 6:
				sig, err := l.sk.SignFrom(failingReader(t))
				l.log("failing sign")
				if err == nil {
					l.fatalf("SignFrom succeeded (index %d) although the source failed", sig.SeqNo())
				}
			case 7, 8, 9:
				a := genAmount(t, 6, p.Max()-min(p.Max(), uint64(l.sk.SeqNo())))
				err := l.sk.BorrowExactly(a)
				l.log("borrow %d: %v", a, err)
				borrowed++
			case 10:
				a := genAmount(t, 6, p.Max()-min(p.Max(), uint64(l.sk.SeqNo())))
				err := l.sk.BorrowExactlyIfBelow(a, uint32(rapid.IntRange(0, 4).Draw(t, "below")))
				l.log("borrow %d if below: %v", a, err)
			case 11, 12:
				l.log("close")
				if err := l.sk.Close(); err != nil {
					l.fatalf("Close: %v", err)
				}
				l.sk = nil
				reopened++
			case 13, 14:
				l.log("crash")
				l.b.crash(l.sk)
				l.sk = nil
				crashed++
			case 15:
				l.sk.EnableSubTreePrecomputation()
				l.log("precompute")
			case 16:
				// skip some indices
				s := uint64(l.sk.SeqNo()) + uint64(rapid.IntRange(1, 6).Draw(t, "skip"))
				if s < p.Max() {
					l.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(s))
					l.log("set to %d", s)
				}
			default:
				// what would another process find?
				l.log("peek")
				sk2, pk2, _, err := l.b.peek()
				if err != nil {
					l.fatalf("the stored state can not be opened: %v", err)
				}
				if s := uint64(sk2.SeqNo()); s < l.next {
					l.fatalf("the stored state continues at %d although %d was released", s, l.next-1)
				}
				same(t, "public key of the stored state", mustBytes(t, pk2), l.k.PK())
				if err := sk2.Close(); err != nil {
					l.fatalf("Close: %v", err)
				}
			}
			l.covered("after the last operation")
		}
		if len(l.used) >= 2 && reopened+crashed > 0 {
			nontrivial(fmt.Sprintf("C05 %v %v", p, l.hist))
			label("signatures and restarts")
		}
		if crashed > 0 && borrowed > 0 {
			label("crash with reservations in the history")
		}
		label("disk=%v", onDisk)
	})
}
