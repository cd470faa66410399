package props

import (
	"fmt"
	"os"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C25: reserving indices does what it says.

func TestC25_Reserving(t *testing.T) {
	check(t, 3200, 30000, func(t *rapid.T) {
		p := genTall(t, 8, 1, 3, 3, 10)
		onDisk := rapid.IntRange(0, 2).Draw(t, "onDisk") == 0
		l := newLife(t, p, onDisk)
		defer l.end()
		mem, _ := l.b.(*memBackend)
		fs, _ := l.b.(*fsBackend)
		next := uint64(0)
		if rapid.IntRange(0, 2).Draw(t, "start") == 0 {
			next = genIndex(t, p)
			l.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(next))
			l.log("start at %d", next)
			// setting the index is recorded with the next signature only
			if next < p.Max() {
				sig, err := l.sk.Sign(nil)
				if err != nil {
					l.fatalf("Sign at %d: %v", next, err)
				}
				l.released(next, mustBytes(t, sig), nil)
				next++
			} else if err := l.sk.Close(); err != nil {
				l.fatalf("Close: %v", err)
			} else if mem != nil {
				mem.c.seqNo = next
				if l.sk, _, _, err = l.b.open(); err != nil {
					l.fatalf("open: %v", err)
				}
				mem = l.b.(*memBackend)
			} else {
				return
			}
		}
		reserved := uint32(0)
		unknown := false // after a failed request the number may have become smaller
		did := 0
		stat := func() (string, int) {
			if onDisk {
				fi, err := os.Stat(fs.path)
				if err != nil {
					l.fatalf("stat: %v", err)
				}
				b, _ := os.ReadFile(fs.path)
				return fmt.Sprintf("%d %x", fi.ModTime().UnixNano(), b), 0
			}
			return "", mem.c.seqWrites
		}
		checkReserved := func() {
			got := l.sk.BorrowedSeqNos()
			if unknown {
				if got > reserved {
					l.fatalf("%d are reported as reserved after a failed request, not more than %d can be", got, reserved)
				}
				reserved, unknown = got, false
			}
			if got != reserved {
				l.fatalf("%d are reported as reserved, want %d", got, reserved)
			}
			if s := uint64(l.sk.SeqNo()); s != next {
				l.fatalf("the next index is %d, want %d", s, next)
			}
		}
		n := rapid.IntRange(15, 50).Draw(t, "n")
		for i := 0; i < n; i++ {
			op := pick(t, "op", "sign", 6, "exact", 4, "cond", 3, "fault", 2, "much", 1, "reopen", 1)
			if op == "fault" && onDisk {
				op = "sign"
			}
			switch op {
			case "sign":
				s0, w0 := stat()
				sig, err := l.sk.Sign(nil)
				s1, w1 := stat()
				if next >= p.Max() {
					if err == nil {
						l.fatalf("signature %d beyond the capacity", sig.SeqNo())
					}
					continue
				}
				if err != nil {
					l.fatalf("Sign at %d, %d reserved: %v", next, reserved, err)
				}
				l.log("sign=%d", sig.SeqNo())
				if uint64(sig.SeqNo()) != next {
					l.fatalf("index %d used, want %d", sig.SeqNo(), next)
				}
				l.released(next, mustBytes(t, sig), nil)
				next++
				if reserved > 0 {
					reserved--
					if s0 != s1 || w0 != w1 {
						l.fatalf("signing wrote to the storage although %d indices were reserved", reserved+1)
					}
					label("sign from reserved")
				}
				did++
			case "exact", "cond":
				left := p.Max() - next
				a := genAmount(t, 7, left)
				if rapid.IntRange(0, 7).Draw(t, "all") == 0 && left < 1<<20 {
					a = uint32(left)
				}
				if uint64(a) > left {
					a = uint32(left)
				}
				var err xmssmt.Error
				if op == "exact" {
					err = l.sk.BorrowExactly(a)
					l.log("borrow %d: %v", a, err)
				} else {
					th := uint32(rapid.IntRange(0, 7).Draw(t, "threshold"))
					if rapid.IntRange(0, 2).Draw(t, "edge") == 0 {
						th = reserved + uint32(rapid.IntRange(0, 2).Draw(t, "edgeOff")) - 1
						if th == ^uint32(0) {
							th = 0
						}
					}
					s0, w0 := stat()
					err = l.sk.BorrowExactlyIfBelow(a, th)
					s1, w1 := stat()
					l.log("borrow %d if <=%d: %v", a, th, err)
					if reserved > th {
						if s0 != s1 || w0 != w1 {
							l.fatalf("a conditional request (threshold %d) wrote to the storage although %d are reserved", th, reserved)
						}
						a = reserved
						label("condition not met")
					}
				}
				if err != nil {
					l.fatalf("reserving %d of %d left: %v", a, left, err)
				}
				reserved = a
				did++
			case "much": // more than there are
				left := p.Max() - next
				if left >= 1<<32-8 {
					continue
				}
				a := uint32(left) + uint32(rapid.IntRange(1, 5).Draw(t, "over"))
				before := l.sk.BorrowedSeqNos()
				err := l.sk.BorrowExactly(a)
				l.log("borrow %d of %d: %v", a, left, err)
				if err != nil {
					reserved, unknown = before, true
				} else {
					reserved = a
				}
			case "fault":
				what := rapid.SampledFrom([]string{"BorrowSeqNos", "SetSeqNo", "GetSeqNo"}).Draw(t, "which")
				before := rapid.Bool().Draw(t, "before")
				hit := false
				mem.c.fault = func(op string, b bool) xmssmt.Error {
					if op == what && b == before {
						hit = true
						return &ctrErr{"injected"}
					}
					return nil
				}
				left := p.Max() - next
				a := genAmount(t, 7, left)
				if uint64(a) > left {
					a = uint32(left)
				}
				err := l.sk.BorrowExactly(a)
				mem.c.fault = nil
				l.log("borrow %d with %s failing: %v", a, what, err)
				if err == nil {
					reserved = a
				} else {
					if !hit {
						l.fatalf("reserving %d of %d left: %v", a, left, err)
					}
					if a > reserved {
						reserved = a
					}
					unknown = true
					label("failed request")
				}
			case "reopen":
				l.log("close")
				if err := l.sk.Close(); err != nil {
					l.fatalf("Close: %v", err)
				}
				var err xmssmt.Error
				l.sk, _, _, err = l.b.open()
				if err != nil {
					l.fatalf("open: %v", err)
				}
				reserved = 0
			}
			checkReserved()
			eval()
			if l.next > 0 {
				l.covered(op)
			}
			if seq, _, err := l.b.stored(); err == nil && seq > p.Max() {
				l.fatalf("after %s the stored index is %d: the key can not be opened anymore", op, seq)
			}
		}
		if did > 3 {
			nontrivial(fmt.Sprintf("C25 %v %v", p, l.hist))
		}
		label("disk=%v", onDisk)
	})
}
