package props

import (
	"fmt"
	"io"
	"sync/atomic"
	"testing"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C32: nobody waits for somebody else's message.

// haltReader is a message that comes to a halt until it is let go.
type haltReader struct {
	msg     []byte
	at      int // halts here
	reached chan struct{}
	release chan struct{}
	err     error // instead of the rest
	pos     int
	passed  bool
	inside  func() // runs in the middle of the message
}

func (r *haltReader) Read(b []byte) (int, error) {
	if r.pos >= r.at && !r.passed {
		r.passed = true
		if r.inside != nil {
			r.inside()
		}
		if r.reached != nil {
			close(r.reached)
			<-r.release
		}
		if r.err != nil {
			return 0, r.err
		}
	}
	if r.pos == len(r.msg) {
		return 0, io.EOF
	}
	end := len(r.msg)
	if !r.passed {
		end = r.at
	}
	n := copy(b, r.msg[r.pos:end])
	r.pos += n
	return n, nil
}

// patience is how long to wait for what should not take any time: long enough for a
// loaded machine, but not that long when shrinking.
var impatient atomic.Bool

func patience() time.Duration {
	if impatient.Load() {
		return 2 * time.Second
	}
	return 40 * time.Second
}

type pending struct {
	r    *haltReader
	done chan struct{}
	sig  *xmssmt.Signature
	ok   bool
	err  xmssmt.Error
	ver  bool // is a verification
	good bool // and should succeed
}

func TestC32_Blocked(t *testing.T) {
	check(t, 2000, 40000, func(t *rapid.T) {
		p := genLife(t, 8, 1, 3, 4, 16)
		k := genKey(t, p)
		start := genIndex(t, p)
		size := uint64(1) << uint(p.TH())
		onDisk := rapid.IntRange(0, 3).Draw(t, "onDisk") == 0
		threads := rapid.SampledFrom([]int{1, 1, 0, 3}).Draw(t, "threads")
		hist := fmt.Sprintf("%v from %d, on disk %v, %d threads:", p, start, onDisk, threads)
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		var err xmssmt.Error
		if onDisk {
			dir := tmpDir()
			defer rmDir(dir)
			sk, pk, err = derive(newCtx(t, p, threads), k, dir+"/key")
		} else {
			sk, pk, err = deriveInto(newCtx(t, p, threads), k, newMemCtr())
		}
		if err != nil {
			t.Fatalf("create: %v", err)
		}
		sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(start))
		pkBytes := mustBytes(t, pk)

		// returns runs f, which has to return in spite of those who wait.
		returns := func(what string, f func()) {
			done := make(chan struct{})
			go func() {
				defer close(done)
				f()
			}()
			tm := time.NewTimer(patience())
			defer tm.Stop()
			select {
			case <-done:
			case <-tm.C:
				impatient.Store(true)
				t.Fatalf("%s: %s does not return while others wait for their messages", hist, what)
			}
			eval()
		}
		used := map[uint64]bool{}
		count := uint64(0) // indices given to somebody
		n := 0
		message := func() []byte {
			n++
			return append([]byte(fmt.Sprintf("%d ", n)), genShortMsg(t)...)
		}
		left := func() uint64 { return p.Max() - start - count }
		judge := func(what string, sig *xmssmt.Signature, err xmssmt.Error, msg []byte) {
			if err != nil {
				t.Fatalf("%s: %s: %v", hist, what, err)
			}
			idx := uint64(sig.SeqNo())
			if used[idx] || idx < start || idx >= p.Max() {
				t.Fatalf("%s: %s: index %d (used before: %v)", hist, what, idx, used[idx])
			}
			used[idx] = true
			b := mustBytes(t, sig)
			returns("verifying", func() {
				if ok, err := xmssmt.Verify(pkBytes, b, msg); !ok {
					t.Errorf("%s: %s: the signature with index %d is refused: %v", hist, what, idx, err)
				}
			})
		}
		var waiting []*pending
		defer func() {
			// (after a failure)
			for _, w := range waiting {
				close(w.r.release)
			}
		}()
		finish := func(i int) {
			w := waiting[i]
			waiting = append(waiting[:i:i], waiting[i+1:]...)
			close(w.r.release)
			select {
			case <-w.done:
			case <-time.After(patience()):
				impatient.Store(true)
				t.Fatalf("%s: what waited for its message does not return after it", hist)
			}
			eval()
			switch {
			case w.r.err != nil:
				if w.err == nil || w.sig != nil || w.ok {
					t.Fatalf("%s: the message failed, but this gave %v, %v, %v", hist, w.sig, w.ok, w.err)
				}
			case w.ver:
				if w.ok != w.good {
					t.Fatalf("%s: verification gave %v (%v) instead of %v", hist, w.ok, w.err, w.good)
				}
			default:
				judge("what waited for its message", w.sig, w.err, w.r.msg)
			}
		}
		var last *xmssmt.Signature
		var lastMsg []byte
		most, meanwhile := 0, 0
		for i := rapid.IntRange(4, 16).Draw(t, "ops"); i > 0; i-- {
			op := pick(t, "op", "block", 6, "sign", 5, "subtree", 3, "borrow", 2, "borrowIf", 1, "query", 2, "precompute", 1, "blockVerify", 2, "verify", 1,
				"release", 3, "inside", 2)
			hist += " " + op
			step("C32 %s", hist)
			if len(waiting) > 0 && op != "block" && op != "release" {
				meanwhile++
			}
			switch op {
			case "block", "blockVerify":
				if op == "block" && left() == 0 || op == "blockVerify" && last == nil || len(waiting) == 6 {
					continue
				}
				w := &pending{ver: op == "blockVerify", done: make(chan struct{})}
				w.r = &haltReader{reached: make(chan struct{}), release: make(chan struct{})}
				if w.ver {
					w.r.msg, w.good = lastMsg, true
					if rapid.Bool().Draw(t, "wrong") {
						w.r.msg, w.good = append([]byte("x"), lastMsg...), false
					}
				} else {
					w.r.msg = message()
					count++
				}
				w.r.at = rapid.IntRange(0, len(w.r.msg)).Draw(t, "at")
				if rapid.IntRange(0, 5).Draw(t, "fails") == 0 {
					w.r.err = io.ErrUnexpectedEOF
				}
				sig := last
				go func() {
					defer close(w.done)
					if w.ver {
						w.ok, w.err = pk.VerifyFrom(sig, w.r)
					} else {
						w.sig, w.err = sk.SignFrom(w.r)
					}
				}()
				select {
				case <-w.r.reached:
				case <-w.done:
					t.Fatalf("%s: returned without its message: %v", hist, w.err)
				case <-time.After(patience()):
					impatient.Store(true)
					t.Fatalf("%s: does not come to its message while others wait for theirs", hist)
				}
				waiting = append(waiting, w)
				most = max(most, len(waiting))
			case "sign", "subtree":
				m := uint64(1)
				if op == "subtree" {
					m = size
				}
				for ; m > 0 && left() > 0; m-- {
					msg := message()
					count++
					var sig *xmssmt.Signature
					var err xmssmt.Error
					returns("signing", func() { sig, err = sk.Sign(msg) })
					judge("signing", sig, err, msg)
					last, lastMsg = sig, msg
				}
			case "inside":
				// the reader itself uses the key
				if left() < 2 {
					continue
				}
				msg, msg2 := message(), message()
				count += 2
				var sig, sig2 *xmssmt.Signature
				var err, err2 xmssmt.Error
				var inside atomic.Bool
				returns("signing from a reader that uses the key", func() {
					sig, err = sk.SignFrom(&haltReader{msg: msg, at: len(msg) / 2, inside: func() {
						sig2, err2 = sk.Sign(msg2)
						sk.SeqNo()
						sk.UnretiredSeqNos()
						sk.CachedSubTrees()
						sk.EnableSubTreePrecomputation()
						if err2 == nil {
							ok, _ := pk.Verify(sig2, msg2)
							inside.Store(ok)
						}
					}})
				})
				judge("signing from a reader that uses the key", sig, err, msg)
				judge("signing inside a reader", sig2, err2, msg2)
				if !inside.Load() {
					t.Fatalf("%s: verifying inside a reader failed", hist)
				}
			case "borrow", "borrowIf":
				a, b := uint32(rapid.IntRange(0, 6).Draw(t, "amount")), uint32(rapid.IntRange(0, 6).Draw(t, "threshold"))
				returns("borrowing", func() {
					if op == "borrow" {
						sk.BorrowExactly(a)
					} else {
						sk.BorrowExactlyIfBelow(a, b)
					}
				})
			case "query":
				returns("a query", func() {
					sk.SeqNo()
					sk.BorrowedSeqNos()
					sk.CachedSubTrees()
					sk.PublicKey()
					sk.Context().Name()
					sk.UnretiredSeqNos()
				})
			case "precompute":
				returns("enabling precomputation", func() { sk.EnableSubTreePrecomputation() })
			case "verify":
				if last == nil {
					continue
				}
				returns("verifying", func() {
					if ok, err := pk.Verify(last, lastMsg); !ok {
						t.Errorf("%s: refused: %v", hist, err)
					}
				})
			case "release":
				if len(waiting) > 0 {
					finish(rapid.IntRange(0, len(waiting)-1).Draw(t, "which"))
				}
			}
		}
		for len(waiting) > 0 {
			finish(rapid.IntRange(0, len(waiting)-1).Draw(t, "which"))
		}
		if s := uint64(sk.SeqNo()); s != start+count {
			t.Fatalf("%s: next index %d after %d uses", hist, s, count)
		}
		if u := sk.UnretiredSeqNos(); u != 0 {
			t.Fatalf("%s: %d indices are in use", hist, u)
		}
		returns("closing", func() {
			if err := sk.Close(); err != nil {
				t.Errorf("%s: close: %v", hist, err)
			}
		})
		if most > 0 && meanwhile > 0 {
			nontrivial("C32 " + hist)
			label("%d wait", most)
		}
	})
}
