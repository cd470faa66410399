package props

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C20: reopening restores the key, losses are reported truthfully.

func TestC20_Histories(t *testing.T) {
	check(t, 2400, 20000, func(t *rapid.T) {
		p := genTall(t, 8, 1, 3, 3, 8)
		l := newLife(t, p, rapid.IntRange(0, 3).Draw(t, "onDisk") > 0)
		defer l.end()
		if rapid.IntRange(0, 2).Draw(t, "start") == 0 {
			s := genIndex(t, p)
			l.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(s))
			l.log("start at %d", s)
			sig, err := l.sk.Sign(nil) // records the position
			if err != nil {
				l.fatalf("Sign: %v", err)
			}
			l.released(uint64(sig.SeqNo()), mustBytes(t, sig), nil)
		}
		// what a later loss may report:
		reserved := uint32(0)    // reserved and not used by the live key
		everReserved := false    // since the last orderly close
		restarts, losses := 0, 0 // for the statistics
		ctxP := l.sk.Context().Params()
		if ctxP != lib(p) {
			l.fatalf("parameters %v", ctxP)
		}
		n := rapid.IntRange(15, 50).Draw(t, "n")
		for i := 0; i < n; i++ {
			switch pick(t, "op", "sign", 5, "borrow", 3, "borrowIf", 1, "close", 3, "crash", 3, "failsign", 1) {
			case "sign":
				sig, err := l.sk.Sign(nil)
				if err != nil {
					if uint64(l.sk.SeqNo()) < p.Max() {
						l.fatalf("Sign: %v", err)
					}
					continue
				}
				l.log("sign=%d", sig.SeqNo())
				l.released(uint64(sig.SeqNo()), mustBytes(t, sig), nil)
				if reserved > 0 {
					reserved--
				}
			case "failsign":
				before := l.sk.SeqNo()
				if _, err := l.sk.SignFrom(failingReader(t)); err == nil {
					l.fatalf("SignFrom succeeded although the source failed")
				}
				l.log("failing sign")
				if reserved > 0 && l.sk.SeqNo() != before {
					reserved--
				}
			case "borrow", "borrowIf":
				left := p.Max() - uint64(l.sk.SeqNo())
				a := genAmount(t, 6, left)
				if uint64(a) > left {
					a = uint32(left)
				}
				if err := l.sk.BorrowExactly(a); err != nil {
					l.fatalf("BorrowExactly(%d) with %d left: %v", a, left, err)
				}
				l.log("borrow %d", a)
				reserved = a
				everReserved = everReserved || a > 0
			case "close":
				next := l.sk.SeqNo()
				l.log("close at %d", next)
				if err := l.sk.Close(); err != nil {
					l.fatalf("Close: %v", err)
				}
				l.sk = nil
				seq, lost, e := l.b.stored()
				if e != nil || seq != uint64(next) || lost != 0 {
					l.fatalf("closed at %d; stored: next index %d, %d lost (%v)", next, seq, lost, e)
				}
				sk, pk, lostSigs, err := l.b.open()
				if err != nil {
					l.fatalf("open: %v", err)
				}
				l.sk = sk
				same(t, "public key after closing and opening", mustBytes(t, pk), l.k.PK())
				if sk.SeqNo() != next || lostSigs != 0 || sk.BorrowedSeqNos() != 0 {
					l.fatalf("closed at %d; reopened at %d, %d lost, %d reserved", next, sk.SeqNo(), lostSigs, sk.BorrowedSeqNos())
				}
				if sk.Context().Params() != lib(p) {
					l.fatalf("reopened with parameters %v", sk.Context().Params())
				}
				reserved, everReserved = 0, false
				restarts++
			case "crash":
				l.log("crash")
				l.b.crash(l.sk)
				l.sk = nil
				seq, stLost, e := l.b.stored()
				if e != nil {
					l.fatalf("stored state: %v", e)
				}
				sk, pk, lostSigs, err := l.b.open()
				if err != nil {
					l.fatalf("the key can not be opened after a loss of the process: %v", err)
				}
				l.sk = sk
				same(t, "public key after a loss of the process", mustBytes(t, pk), l.k.PK())
				if lostSigs < reserved {
					l.fatalf("%d reserved indices were not used, but only %d reported as lost", reserved, lostSigs)
				}
				if !everReserved && lostSigs != 0 {
					l.fatalf("%d indices reported as lost, but none was ever reserved", lostSigs)
				}
				if uint64(sk.SeqNo()) != seq || lostSigs != stLost {
					l.fatalf("stored: %d, %d lost; opened: %d, %d lost", seq, stLost, sk.SeqNo(), lostSigs)
				}
				if reserved > 0 {
					losses++
				}
				// Nothing is reserved in the new process, but the record
				// of what was lost may stay until the next write.
				reserved = 0
				restarts++
			}
			eval()
		}
		if restarts > 0 {
			nontrivial(fmt.Sprintf("C20 %v %v", p, l.hist))
		}
		if losses > 0 {
			label("lost reserved indices")
		}
		label("histories")
	})
}

// The layout of key files: what is written by hand is read exactly, and what
// the library writes is what the layout says.
func TestC20_Layout(t *testing.T) {
	check(t, 1600, 12000, func(t *rapid.T) {
		p := genParams(t, 3, 3, 0)
		k := genKey(t, p)
		dir := tmpDir()
		defer rmDir(dir)
		path := filepath.Join(dir, rapid.SampledFrom([]string{"key", "a b", "k.cache", "ключ"}).Draw(t, "name"))
		seq := genIndex(t, p)
		switch rapid.IntRange(0, 4).Draw(t, "end") {
		case 0:
			seq = p.Max()
		}
		lost := uint32(rapid.Uint64().Draw(t, "lost"))
		switch rapid.IntRange(0, 3).Draw(t, "lostKind") {
		case 0, 1:
			lost = uint32(rapid.IntRange(0, 3).Draw(t, "lost"))
		case 2:
			lost = ^uint32(0) - uint32(rapid.IntRange(0, 3).Draw(t, "lost"))
		}
		writeKeyFile(path, k, seq, lost)
		before, _ := os.ReadFile(path)
		sk, pk, lostSigs, err := xmssmt.LoadPrivateKey(path)
		if err != nil {
			t.Fatalf("a key file of %v at index %d with %d lost is refused: %v", p, seq, lost, err)
		}
		defer func() { sk.Close() }()
		if uint64(sk.SeqNo()) != seq || lostSigs != lost {
			t.Fatalf("written: index %d, %d lost; read: %d, %d", seq, lost, sk.SeqNo(), lostSigs)
		}
		if sk.Context().Params() != lib(p) {
			t.Fatalf("written: %v, read: %v", lib(p), sk.Context().Params())
		}
		same(t, "public key", mustBytes(t, pk), k.PK())
		after, _ := os.ReadFile(path)
		if string(before) != string(after) {
			t.Fatalf("loading the key changed its file")
		}
		if seq < p.Max() {
			msg := genShortMsg(t)
			sig, err := sk.Sign(msg)
			if err != nil {
				t.Fatalf("Sign: %v", err)
			}
			same(t, "signature", mustBytes(t, sig), k.Sign(seq, msg))
			seq++
			kf, e := readKeyFile(path)
			if e != nil || kf.SeqNo != seq || kf.Borrowed != 0 || kf.Raw != lib(p) || string(kf.Sk) != string(k.SkBytes()) {
				t.Fatalf("after signing with %d the key file says: %+v %v", seq-1, kf, e)
			}
			left := p.Max() - seq
			a := genAmount(t, 9, left)
			if uint64(a) <= left {
				if err := sk.BorrowExactly(a); err != nil {
					t.Fatalf("BorrowExactly: %v", err)
				}
				kf, e := readKeyFile(path)
				if e != nil || kf.SeqNo != seq+uint64(a) || kf.Borrowed != a {
					t.Fatalf("%d indices reserved at %d; the key file says: %+v %v", a, seq, kf, e)
				}
			}
		}
		if err := sk.Close(); err != nil {
			t.Fatalf("Close: %v", err)
		}
		if kf, e := readKeyFile(path); e != nil || kf.SeqNo != seq || kf.Borrowed != 0 || string(kf.Sk) != string(k.SkBytes()) {
			t.Fatalf("closed at %d; the key file says: %+v %v", seq, kf, e)
		}
		eval()
		nontrivial(fmt.Sprintf("C20 layout %v seq=%d lost=%d", p, seq, lost))
		label("layout")
	})
}
