package props

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// Several goroutines use a key while its storage fails.

// window is a series of calls of one kind that fail.
type window struct {
	op     string // "" for any
	layer  int    // of GetSubTree; -1 for any
	before bool
	nth    int // calls that are let through
	many   int // calls that fail then
}

func genWindow(t *rapid.T) *window {
	return &window{
		op: rapid.SampledFrom([]string{"GetSubTree", "GetSubTree", "GetSubTree", "SetSeqNo", "BorrowSeqNos",
			"GetSeqNo", "DropSubTree", ""}).Draw(t, "failing"),
		layer:  rapid.IntRange(-1, 3).Draw(t, "layer"),
		before: rapid.Bool().Draw(t, "beforeEffect"),
		nth:    rapid.IntRange(0, 8).Draw(t, "nth"),
		many:   rapid.SampledFrom([]int{1, 2, 5, 1 << 30, 1 << 30}).Draw(t, "many"),
	}
}

// concurrentFaults lets goroutines sign (and more) while the storage fails,
// and closes the key.
func concurrentFaults(t *rapid.T, id string) {
	p := genLife(t, 8, 1, 3, 4, 16)
	k := genKey(t, p)
	start := genIndex(t, p)
	mem := memCtrFor(k, start)
	mem.reuse = rapid.Bool().Draw(t, "reuse")
	l := &life{t: t, p: p, k: k, used: map[uint64]bool{}, b: &memBackend{c: mem}}
	defer l.end()
	l.log("start at %d", start)
	var err xmssmt.Error
	l.sk, l.pk, _, err = xmssmt.LoadPrivateKeyFrom(mem)
	if err != nil {
		l.fatalf("load: %v", err)
	}
	sk, pk := l.sk, l.pk
	pre := rapid.IntRange(0, 3).Draw(t, "precompute") > 0
	if rapid.Bool().Draw(t, "warm") {
		if sig, err := sk.Sign(nil); err == nil {
			l.released(uint64(sig.SeqNo()), mustBytes(t, sig), nil)
		}
	}
	windows := []*window{}
	for i := rapid.IntRange(1, 2).Draw(t, "nWindows"); i > 0; i-- {
		windows = append(windows, genWindow(t))
	}
	for _, w := range windows {
		l.log("%v", *w)
	}
	j := newJitter(t)
	theLogger.j.Store(j)
	defer theLogger.j.Store(nil)
	hits := 0
	mem.hook = func(string) { j.wait() }
	healed := int32(0)
	mem.fault = func(op string, before bool) xmssmt.Error {
		if atomic.LoadInt32(&healed) != 0 {
			return nil
		}
		for _, w := range windows {
			if w.before != before || w.op != "" && w.op != op ||
				op == "GetSubTree" && w.layer >= 0 && uint32(w.layer) != mem.layer {
				continue
			}
			if w.nth > 0 {
				w.nth--
				continue
			}
			if w.many > 0 {
				w.many--
				hits++
				return &ctrErr{"injected failure of " + op}
			}
		}
		return nil
	}
	if pre {
		l.log("precompute")
		sk.EnableSubTreePrecomputation()
	}
	goroutines := rapid.IntRange(1, 4).Draw(t, "goroutines")
	nOps := rapid.IntRange(1, 5).Draw(t, "nOps")
	type op struct {
		borrow int // -1: sign
	}
	plans := make([][]op, goroutines)
	for g := range plans {
		for i := 0; i < nOps; i++ {
			o := op{-1}
			if rapid.IntRange(0, 5).Draw(t, "borrows") == 0 {
				o.borrow = rapid.IntRange(0, 5).Draw(t, "amount")
			}
			plans[g] = append(plans[g], o)
		}
	}
	l.log("%d goroutines, %d operations each", goroutines, nOps)
	type rel struct {
		idx uint64
		b   []byte
		msg []byte
	}
	var mu sync.Mutex
	var rels []rel
	var bad []string
	complain := func(f string, a ...interface{}) {
		mu.Lock()
		bad = append(bad, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for g := range plans {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-gate
			for i, o := range plans[g] {
				if e := protect(func() {
					if o.borrow >= 0 {
						sk.BorrowExactly(uint32(o.borrow))
						return
					}
					msg := []byte{byte(g), byte(i)}
					sig, err := sk.Sign(msg)
					if err != nil {
						return
					}
					idx := uint64(sig.SeqNo())
					if d := atomic.LoadUint64(&mem.durable); d <= idx {
						complain("index %d was released, but the stored next index is %d", idx, d)
					}
					if ok, err := pk.Verify(sig, msg); !ok {
						complain("the signature with index %d is refused: %v", idx, err)
					}
					b, _ := sig.MarshalBinary()
					mu.Lock()
					rels = append(rels, rel{idx, b, msg})
					mu.Unlock()
				}); e != nil {
					complain("%v", e)
				}
			}
		}(g)
	}
	close(gate)
	wg.Wait()
	l.log("%d signatures", len(rels))
	if len(bad) > 0 {
		l.fatalf("%s", bad[0])
	}
	sort.Slice(rels, func(a, b int) bool { return rels[a].idx < rels[b].idx })
	for _, r := range rels {
		l.released(r.idx, r.b, r.msg)
	}
	l.covered("in the end")
	if us := rapid.IntRange(0, 600).Draw(t, "delay"); us > 100 {
		time.Sleep(time.Duration(us) * time.Microsecond)
	}

	sign := func(what string) {
		if uint64(l.sk.SeqNo()) >= p.Max() {
			return
		}
		var sig *xmssmt.Signature
		var err xmssmt.Error
		l.noPanic(what, func() { sig, err = l.sk.Sign([]byte(what)) })
		if err != nil {
			l.fatalf("%s: %v", what, err)
		}
		l.released(uint64(sig.SeqNo()), mustBytes(t, sig), []byte(what))
		l.covered(what)
	}
	if rapid.Bool().Draw(t, "closeWhileFailing") {
		l.log("close while failing")
		var err xmssmt.Error
		l.noPanic("Close", func() { err = sk.Close() })
		atomic.StoreInt32(&healed, 1)
		if err != nil {
			l.log("close fails")
			l.covered("closing failed")
			// It might be closed already, if it was the last step that failed.
			// What counts is the state that is left.
			l.noPanic("Close", func() { sk.Close() })
		}
	} else {
		atomic.StoreInt32(&healed, 1)
		l.log("healed")
		if rapid.Bool().Draw(t, "signFirst") {
			// What is wrong might need a reopening.
			var sig *xmssmt.Signature
			var err xmssmt.Error
			l.noPanic("Sign", func() { sig, err = sk.Sign(nil) })
			if err == nil {
				l.released(uint64(sig.SeqNo()), mustBytes(t, sig), nil)
				l.covered("sign")
			}
		}
		var err xmssmt.Error
		l.noPanic("Close", func() { err = sk.Close() })
		if err != nil {
			l.fatalf("closing after the failure is over: %v", err)
		}
	}
	l.sk = nil
	quiesce()
	mem.logM.Lock()
	ac := append([]string(nil), mem.afterClose...)
	mem.logM.Unlock()
	for _, op := range ac {
		if op != "Close" {
			l.fatalf("after Close the storage is used: %v", ac)
		}
	}
	mem.checkOverlap(t)
	l.covered("closed")
	if _, lost, _ := l.b.stored(); lost != 0 {
		l.fatalf("closed, but %d signatures are stored as possibly lost", lost)
	}
	l.log("open")
	var pk2 *xmssmt.PublicKey
	l.sk, pk2, _, err = l.b.open()
	if err != nil {
		l.fatalf("open: %v", err)
	}
	same(t, "public key", mustBytes(t, pk2), k.PK())
	for i := 0; i < 3; i++ {
		sign("sign after reopening")
	}
	eval()
	if hits > 0 {
		nontrivial(fmt.Sprintf("%s conc %v %d %v", id, p, start, l.hist))
		label("concurrent calls met %d failures or more", min(hits, 3))
	}
}

func TestC07_Concurrent(t *testing.T) {
	q, th := 1500, 30000
	check(t, q, th, func(t *rapid.T) { concurrentFaults(t, "C07") })
}

func TestC09_Faulty(t *testing.T) {
	q, th := 1500, 30000
	if raceBuild {
		q, th = 200, 3000
	}
	check(t, q, th, func(t *rapid.T) { concurrentFaults(t, "C09") })
}
