package props

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C08: concurrent use of one private key.

// jitter yields or sleeps a little, by chance.  (It shares nothing between
// the goroutines: that would hide data races from the race detector.)
type jitter struct {
	calm int // the larger, the less it does
	long int // how long to sleep, in microseconds
}

func newJitter(t *rapid.T) *jitter {
	return &jitter{calm: rapid.SampledFrom([]int{2, 4, 12, 40}).Draw(t, "calm"),
		long: rapid.SampledFrom([]int{150, 150, 1500}).Draw(t, "long")}
}

func (j *jitter) wait() {
	x := rand.IntN(4 * j.calm)
	switch {
	case x == 0:
		time.Sleep(time.Duration(rand.IntN(j.long)) * time.Microsecond)
	case x < 4:
		for i := rand.IntN(7); i >= 0; i-- {
			runtime.Gosched()
		}
	}
}

// jitterLogger receives the log messages of the library.  They are written
// at interesting moments: it yields there, if asked to.
type jitterLogger struct {
	j atomic.Pointer[jitter]
}

var theLogger jitterLogger

func (g *jitterLogger) Logf(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if c := logSink.Load(); c != nil {
		c.add(s)
	}
	if j := g.j.Load(); j != nil {
		j.wait()
	}
}

func init() {
	xmssmt.SetLogger(&theLogger)
}

// slowReader yields before each piece.
type slowReader struct {
	r io.Reader
	j *jitter
}

func (s *slowReader) Read(b []byte) (int, error) {
	s.j.wait()
	if len(b) > 7 {
		b = b[:7]
	}
	return s.r.Read(b)
}

// quiesce waits until no goroutine is inside the library any more.
func quiesce() bool {
	for i := 0; i < 20000; i++ {
		if !insideLibrary() {
			return true
		}
		time.Sleep(200 * time.Microsecond)
		step("waiting for the background (%d)", i)
	}
	return false
}

var stackBuf = make([]byte, 1<<20)
var stackMu sync.Mutex

func insideLibrary() bool {
	stackMu.Lock()
	defer stackMu.Unlock()
	n := runtime.Stack(stackBuf, true)
	// "created by" lines name the library too, but only as long as the
	// goroutine exists.
	return bytes.Contains(stackBuf[:n], []byte(libPrefix))
}

type relSig struct {
	idx uint64
	b   []byte
	msg []byte
}

func TestC08_Concurrent(t *testing.T) {
	q, th := 900, 16000
	if raceBuild {
		q, th = 320, 5000
	}
	check(t, q, th, func(t *rapid.T) {
		p := genLife(t, 6, 1, 3, 4, 14)
		if rapid.IntRange(0, 5).Draw(t, "tall") == 0 {
			p.H, p.D = p.TH()*(63/p.TH()), 63/p.TH()
			p.W, p.N, p.Func = 16, 16, 0
		}
		k := genKey(t, p)
		goroutines := rapid.IntRange(2, 8).Draw(t, "goroutines")
		type op struct {
			kind string
			a, b uint32
			msg  []byte
		}
		plans := make([][]op, goroutines)
		total, maxBorrow := 0, uint32(0)
		for g := range plans {
			n := rapid.IntRange(2, 10).Draw(t, "nOps")
			for i := 0; i < n; i++ {
				o := op{kind: pick(t, "op", "sign", 8, "signFrom", 4, "borrow", 2, "borrowIf", 2, "query", 5,
					"precompute", 1, "pk", 1, "failing", 1)}
				switch o.kind {
				case "sign", "signFrom":
					total++
					o.msg = []byte(fmt.Sprintf("%d %d ", g, i))
					o.msg = append(o.msg, genShortMsg(t)...)
				case "failing":
					total++
				case "query":
					o.a = uint32(rapid.IntRange(0, 5).Draw(t, "kind"))
				case "borrow", "borrowIf":
					o.a = uint32(rapid.IntRange(0, 6).Draw(t, "amount"))
					o.b = uint32(rapid.IntRange(0, 6).Draw(t, "threshold"))
					maxBorrow = max(maxBorrow, o.a)
				}
				plans[g] = append(plans[g], o)
			}
		}
		start := uint64(0)
		if rapid.IntRange(0, 3).Draw(t, "startKind") > 0 {
			start = genIndex(t, p)
		}
		onDisk := rapid.IntRange(0, 3).Draw(t, "onDisk") == 0
		threads := rapid.SampledFrom([]int{1, 1, 0, 3}).Draw(t, "threads")
		j := newJitter(t)
		theLogger.j.Store(j)
		defer theLogger.j.Store(nil)
		step("%v, %d goroutines, %d signatures from %d, disk=%v", p, goroutines, total, start, onDisk)

		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		var err xmssmt.Error
		mem := newMemCtr()
		dir := ""
		if onDisk {
			dir = tmpDir()
			defer rmDir(dir)
			sk, pk, err = derive(newCtx(t, p, threads), k, dir+"/key")
		} else {
			sk, pk, err = deriveInto(newCtx(t, p, threads), k, mem)
			mem.hook = func(string) { j.wait() }
		}
		if err != nil {
			t.Fatalf("create: %v", err)
		}
		if start > 0 {
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(start))
		}
		if rapid.Bool().Draw(t, "precomputeFirst") {
			sk.EnableSubTreePrecomputation()
		}
		left := p.Max() - start
		var mu sync.Mutex
		var rel []relSig
		var bad []string
		failing, refused := 0, 0
		complain := func(f string, a ...interface{}) {
			mu.Lock()
			bad = append(bad, fmt.Sprintf(f, a...))
			mu.Unlock()
		}
		// one call each
		query := func(kind uint32) {
			switch kind {
			case 0:
				if s := uint64(sk.SeqNo()); s < start || s > start+uint64(total) {
					complain("SeqNo() = %d", s)
				}
			case 1:
				if b := sk.BorrowedSeqNos(); b > maxBorrow {
					complain("BorrowedSeqNos() = %d, at most %d were asked for", b, maxBorrow)
				}
			case 2:
				if u := sk.UnretiredSeqNos(); u > uint32(goroutines) {
					complain("UnretiredSeqNos() = %d with %d goroutines", u, goroutines)
				}
			case 3:
				sk.CachedSubTrees()
			case 4:
				_ = sk.Context().Name()
			case 5:
				_ = sk.Context().Params().String()
			}
		}
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for g := range plans {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				if e := protect(func() {
					<-gate
					for _, o := range plans[g] {
						j.wait()
						switch o.kind {
						case "sign", "signFrom":
							var sig *xmssmt.Signature
							var err xmssmt.Error
							if o.kind == "sign" {
								sig, err = sk.Sign(o.msg)
							} else {
								sig, err = sk.SignFrom(&slowReader{bytes.NewReader(o.msg), j})
							}
							if err != nil {
								mu.Lock()
								refused++
								mu.Unlock()
								continue
							}
							if ok, err := pk.Verify(sig, o.msg); !ok {
								complain("the signature with index %d is refused: %v", sig.SeqNo(), err)
							}
							b, _ := sig.MarshalBinary()
							mu.Lock()
							rel = append(rel, relSig{uint64(sig.SeqNo()), b, o.msg})
							mu.Unlock()
						case "failing":
							if _, err := sk.SignFrom(&oddReader{failAt: 0, err: io.ErrUnexpectedEOF}); err == nil {
								complain("signing succeeded although the source failed")
							}
							mu.Lock()
							failing++
							mu.Unlock()
						case "borrow":
							if err := sk.BorrowExactly(o.a); err != nil && left > uint64(total)+uint64(o.a) {
								complain("BorrowExactly(%d): %v", o.a, err)
							}
						case "borrowIf":
							if err := sk.BorrowExactlyIfBelow(o.a, o.b); err != nil && left > uint64(total)+uint64(o.a) {
								complain("BorrowExactlyIfBelow(%d, %d): %v", o.a, o.b, err)
							}
						case "query":
							// A goroutine of its own: what it reads without a lock is a
							// data race with whatever follows.
							wg.Add(1)
							go func() {
								defer wg.Done()
								if e := protect(func() { query(o.a) }); e != nil {
									complain("%v", e)
								}
							}()
						case "precompute":
							sk.EnableSubTreePrecomputation()
						case "pk":
							b, err := sk.PublicKey().MarshalBinary()
							if err != nil || !bytes.Equal(b, k.PK()) {
								complain("PublicKey() = %x %v", b, err)
							}
						}
					}
				}); e != nil {
					complain("%v", e)
				}
			}(g)
		}
		close(gate)
		wg.Wait()
		ctxt := fmt.Sprintf("%v, %d goroutines from index %d of %d, disk=%v: %d signatures, %d refused, %d failing",
			p, goroutines, start, p.Max(), onDisk, len(rel), refused, failing)
		if len(bad) > 0 {
			t.Fatalf("%s\n%s", bad[0], ctxt)
		}
		sort.Slice(rel, func(a, b int) bool { return rel[a].idx < rel[b].idx })
		var idxs []uint64
		for i, r := range rel {
			idxs = append(idxs, r.idx)
			if i > 0 && rel[i-1].idx == r.idx {
				t.Fatalf("index %d is used twice\n%s", r.idx, ctxt)
			}
			if r.idx < start || r.idx >= p.Max() {
				t.Fatalf("index %d is used\n%s", r.idx, ctxt)
			}
		}
		used := uint64(total)
		if used > left {
			used = left
		} else if refused > 0 {
			t.Fatalf("%d calls were refused although %d signatures were left\n%s", refused, left, ctxt)
		}
		if s := uint64(sk.SeqNo()); s != start+used {
			t.Fatalf("the next index is %d, want %d\n%s", s, start+used, ctxt)
		}
		if len(rel) > 0 && rel[len(rel)-1].idx-start >= used {
			t.Fatalf("index %d is used\n%s", rel[len(rel)-1].idx, ctxt)
		}
		// every index of the range is used, but for those of failing calls
		if miss := used - uint64(len(rel)); miss > uint64(failing) {
			t.Fatalf("of %d indices only %v were used\n%s", used, idxs, ctxt)
		}
		if u := sk.UnretiredSeqNos(); u != 0 {
			t.Fatalf("%d indices are still in use\n%s", u, ctxt)
		}
		for _, r := range rel {
			if ok, err := xmssmt.Verify(k.PK(), r.b, r.msg); !ok {
				t.Fatalf("the signature with index %d is refused: %v\n%s", r.idx, err, ctxt)
			}
			eval()
		}
		if err := sk.Close(); err != nil {
			t.Fatalf("Close: %v\n%s", err, ctxt)
		}
		if !onDisk {
			mem.checkOverlap(t)
			if mem.seqNo != start+used && len(rel) > 0 {
				t.Fatalf("closed at %d, stored %d\n%s", start+used, mem.seqNo, ctxt)
			}
		} else if kf, e := readKeyFile(dir + "/key"); e != nil || kf.SeqNo != start+used && len(rel) > 0 {
			t.Fatalf("closed at %d, stored %d %v\n%s", start+used, kf.SeqNo, e, ctxt)
		}
		if goroutines > 1 && len(rel) > 1 {
			nontrivial(fmt.Sprintf("C08 %s race=%v %v", ctxt, raceBuild, idxs))
		}
		label("disk=%v", onDisk)
		label("race=%v", raceBuild)
	})
}
