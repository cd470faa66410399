package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C13: used-up subtrees are released, and the cache stays bounded.

// gateReader blocks until it is let go.
type gateReader struct {
	r       *bytes.Reader
	entered chan struct{}
	gate    chan struct{}
	once    sync.Once
}

func (g *gateReader) Read(b []byte) (int, error) {
	g.once.Do(func() { close(g.entered) })
	<-g.gate
	return g.r.Read(b)
}

// listTrees returns what is cached.
func listTrees(t *rapid.T, l *life) []xmssmt.SubTreeAddress {
	if m, ok := l.b.(*memBackend); ok {
		var r []xmssmt.SubTreeAddress
		for a := range m.c.cache {
			r = append(r, a)
		}
		return r
	}
	b, err := os.ReadFile(l.b.(*fsBackend).path + ".cache")
	if err != nil {
		l.fatalf("cache file: %v", err)
	}
	var r []xmssmt.SubTreeAddress
	st := slotStride(l.p)
	for o := 4096; o+13 <= len(b); o += st {
		if b[o] != 0 {
			var a xmssmt.SubTreeAddress
			for _, x := range b[o+1 : o+5] {
				a.Layer = a.Layer<<8 | uint32(x)
			}
			for _, x := range b[o+5 : o+13] {
				a.Tree = a.Tree<<8 | uint64(x)
			}
			r = append(r, a)
		}
	}
	return r
}

// checkCache checks what is cached while nothing is going on.
func (l *life) checkCache(t *rapid.T, precomputed bool, what string) int {
	l.t.Helper()
	next := uint64(l.sk.SeqNo())
	if u := l.sk.UnretiredSeqNos(); u != 0 {
		l.fatalf("%s: %d indices are unretired", what, u)
	}
	trees := listTrees(t, l)
	per := map[uint32]int{}
	for _, a := range trees {
		if int(a.Layer) >= l.p.D {
			l.fatalf("%s: subtree %v is cached, which does not exist", what, a)
		}
		if l.passed[a] {
			continue
		}
		if a.Tree < next>>uint((int(a.Layer)+1)*l.p.TH()) {
			l.fatalf("%s: subtree %v is cached, all indices of which are used up (the next index is %d): %v", what, a, next, trees)
		}
		if a.Tree > l.p.Max()>>uint((int(a.Layer)+1)*l.p.TH()) {
			l.fatalf("%s: subtree %v is cached, which is beyond the last signature", what, a)
		}
		per[a.Layer]++
		limit := 1
		if precomputed {
			limit = 2
		}
		if per[a.Layer] > limit {
			l.fatalf("%s: %d subtrees of layer %d are cached (precomputation: %v; the next index is %d): %v", what, per[a.Layer], a.Layer, precomputed, next, trees)
		}
	}
	if n := l.sk.CachedSubTrees(); n != len(trees) {
		l.fatalf("%s: CachedSubTrees() = %d, but %v are cached", what, n, trees)
	}
	return len(trees)
}

func TestC13_Histories(t *testing.T) {
	check(t, 3000, 20000, func(t *rapid.T) {
		p := genLife(t, 6, 1, 3, 4, 12)
		if rapid.IntRange(0, 2).Draw(t, "tall") == 0 {
			// indices of any size
			p = P{Func: 0, N: 16, W: 16}
			th := rapid.IntRange(1, 3).Draw(t, "tth")
			p.D = rapid.IntRange(33/th+1, 63/th).Draw(t, "td")
			p.H = th * p.D
		}
		onDisk := rapid.IntRange(0, 3).Draw(t, "onDisk") == 0
		l := newLife(t, p, onDisk)
		defer l.end()
		precomputed := false
		if rapid.IntRange(0, 2).Draw(t, "perturb") == 0 {
			theLogger.j.Store(newJitter(t))
			defer theLogger.j.Store(nil)
		}
		if rapid.IntRange(0, 2).Draw(t, "start") > 0 {
			// a key that has come so far
			s := genIndex(t, p)
			if p.H > 33 && rapid.Bool().Draw(t, "wrap32") {
				s = 1<<32 - uint64(rapid.IntRange(0, 12).Draw(t, "before"))
			}
			l.log("start at %d", s)
			l.sk.Close()
			if onDisk {
				f := l.b.(*fsBackend)
				writeKeyFile(f.path, l.k, s, 0)
				os.Remove(f.path + ".cache")
			} else {
				l.b.(*memBackend).c = memCtrFor(l.k, s)
			}
			var err xmssmt.Error
			if l.sk, _, _, err = l.b.open(); err != nil {
				l.fatalf("open: %v", err)
			}
			l.sk.Context().Threads = 1
		}
		for i := rapid.IntRange(-4, 3).Draw(t, "jumps"); i > 0; i-- {
			// forth and back, before there are signatures
			s := genIndex(t, p)
			l.log("set %d", s)
			l.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(s))
			l.passed = map[xmssmt.SubTreeAddress]bool{}
			for _, a := range listTrees(t, l) {
				if a.Tree < s>>uint((int(a.Layer)+1)*p.TH()) {
					l.passed[a] = true
				}
			}
			l.checkCache(t, false, "after DangerousSetSeqNo")
		}
		rel := func(sig *xmssmt.Signature, msg []byte) {
			l.next = 0 // concurrent calls finish in any order
			l.released(uint64(sig.SeqNo()), mustBytes(t, sig), msg)
		}
		crossed, maxIn := 0, 1
		quiet := func(what string) {
			if precomputed {
				quiesce()
			}
			l.checkCache(t, precomputed, what)
		}
		first := uint64(l.sk.SeqNo())
		n := rapid.IntRange(4, 16).Draw(t, "n")
		for i := 0; i < n; i++ {
			if uint64(l.sk.SeqNo()) >= p.Max() && rapid.Bool().Draw(t, "stop") {
				break
			}
			switch pick(t, "op", "sign", 4, "many", 4, "permuted", 6, "precompute", 1, "borrow", 1, "reopen", 1, "failing", 1, "parallel", 2, "crash", 1) {
			case "sign", "many":
				c := 1
				if i%2 == 0 {
					c = rapid.IntRange(1, 2<<uint(p.TH())).Draw(t, "count")
				}
				for ; c > 0; c-- {
					sig, err := l.sk.Sign(nil)
					if err != nil {
						if uint64(l.sk.SeqNo()) < p.Max() {
							l.fatalf("Sign: %v", err)
						}
						break
					}
					l.log("sign=%d", sig.SeqNo())
					rel(sig, nil)
					if !precomputed {
						quiet("after a signature")
					}
				}
			case "permuted":
				// several calls, which finish in a drawn order
				k := rapid.IntRange(2, 2<<uint(p.TH())).Draw(t, "calls")
				k = min(k, 9)
				maxIn = max(maxIn, k)
				order := make([]int, k)
				for x := range order {
					order[x] = x
				}
				for x := k - 1; x > 0; x-- {
					y := rapid.IntRange(0, x).Draw(t, "swap")
					order[x], order[y] = order[y], order[x]
				}
				l.log("%d calls finish in the order %v", k, order)
				gates := make([]*gateReader, k)
				sigs := make([]*xmssmt.Signature, k)
				errs := make([]error, k)
				dones := make([]chan struct{}, k)
				for x := 0; x < k; x++ {
					g := &gateReader{r: bytes.NewReader([]byte{byte(x)}), entered: make(chan struct{}), gate: make(chan struct{})}
					gates[x] = g
					dones[x] = make(chan struct{})
					go func(x int) {
						defer close(dones[x])
						errs[x] = protect(func() {
							s, err := l.sk.SignFrom(g)
							if err == nil {
								sigs[x] = s
							}
						})
					}(x)
					// it has its index now, or was refused
					select {
					case <-g.entered:
					case <-dones[x]:
					case <-time.After(60 * time.Second):
						// it waits for another call, maybe
						label("no progress before the message")
					}
				}
				// the process may be lost now, with calls in progress
				var lostM *memCtr
				lostF := ""
				if rapid.IntRange(0, 3).Draw(t, "lost") == 0 && !precomputed {
					l.log("crash meanwhile")
					if b, ok := l.b.(*fsBackend); ok {
						b.n++
						lostF = filepath.Join(b.dir, fmt.Sprintf("key%d", b.n))
						copyKey(b.path, lostF)
					} else {
						lostM = l.b.(*memBackend).c.reopened()
					}
				}
				for _, x := range order {
					close(gates[x].gate)
					<-dones[x]
					if errs[x] != nil {
						l.fatalf("SignFrom: %v", errs[x])
					}
					if sigs[x] != nil {
						rel(sigs[x], []byte{byte(x)})
						crossed++
					}
				}
				if lostM != nil || lostF != "" {
					if err := l.sk.Close(); err != nil {
						l.fatalf("Close: %v", err)
					}
					if b, ok := l.b.(*fsBackend); ok {
						b.path = lostF
					} else {
						l.b.(*memBackend).c = lostM
					}
					var err xmssmt.Error
					if l.sk, _, _, err = l.b.open(); err != nil {
						l.fatalf("open: %v", err)
					}
					l.sk.Context().Threads = 1
				}
			case "parallel":
				k := rapid.IntRange(2, 6).Draw(t, "calls")
				maxIn = max(maxIn, k)
				l.log("%d calls at once", k)
				sigs := make([]*xmssmt.Signature, k)
				errs := make([]error, k)
				var wg sync.WaitGroup
				for x := 0; x < k; x++ {
					wg.Add(1)
					go func(x int) {
						defer wg.Done()
						errs[x] = protect(func() {
							s, err := l.sk.Sign([]byte{byte(x)})
							if err == nil {
								sigs[x] = s
							}
						})
					}(x)
				}
				wg.Wait()
				for x := range sigs {
					if errs[x] != nil {
						l.fatalf("Sign: %v", errs[x])
					}
					if sigs[x] != nil {
						rel(sigs[x], []byte{byte(x)})
					}
				}
			case "failing":
				l.sk.SignFrom(failingReader(t))
				l.log("failing sign")
			case "precompute":
				l.sk.EnableSubTreePrecomputation()
				precomputed = true
				l.log("precompute")
			case "borrow":
				left := p.Max() - uint64(l.sk.SeqNo())
				a := uint64(rapid.IntRange(0, 6).Draw(t, "amount"))
				if a <= left {
					if err := l.sk.BorrowExactly(uint32(a)); err != nil {
						l.fatalf("BorrowExactly: %v", err)
					}
					l.log("borrow %d", a)
				}
			case "crash":
				l.log("crash")
				l.b.crash(l.sk)
				l.sk = nil
				var err xmssmt.Error
				if l.sk, _, _, err = l.b.open(); err != nil {
					l.fatalf("open: %v", err)
				}
				l.passed = nil
				l.sk.Context().Threads = 1
			case "reopen":
				l.log("reopen")
				if err := l.sk.Close(); err != nil {
					l.fatalf("Close: %v", err)
				}
				var err xmssmt.Error
				if l.sk, _, _, err = l.b.open(); err != nil {
					l.fatalf("open: %v", err)
				}
				l.passed = nil
				l.sk.Context().Threads = 1
			}
			quiet("in the end")
			eval()
		}
		if b, ok := l.b.(*fsBackend); ok {
			fi, err := os.Stat(b.path + ".cache")
			if err != nil {
				l.fatalf("%v", err)
			}
			// per layer: what the calls in progress need, and the next
			limit := int64(4096 + slotStride(p)*p.D*(2+maxIn))
			if fi.Size() > limit {
				l.fatalf("the cache file has %d bytes after %d signatures; %d were in progress at once", fi.Size(), len(l.used), maxIn)
			}
		}
		if len(l.used) > 3 {
			nontrivial(fmt.Sprintf("C13 %v %v", p, l.hist))
		}
		if first>>32 != uint64(l.sk.SeqNo())>>32 {
			label("crossed 2^32")
		}
		if crossed > 0 {
			label("calls finished in a drawn order")
		}
	})
}

// Long sequences: the cache file does not grow.
func TestC13_Long(t *testing.T) {
	check(t, 144, 720, func(t *rapid.T) {
		p := genLife(t, 2, 1, 2, 8, 14)
		l := newLife(t, p, true)
		defer l.end()
		b := l.b.(*fsBackend)
		pre := rapid.Bool().Draw(t, "precompute")
		if pre {
			l.sk.EnableSubTreePrecomputation()
		}
		if err := l.sk.BorrowExactly(200); err != nil {
			l.fatalf("borrow: %v", err)
		}
		n := rapid.IntRange(60, 190).Draw(t, "n")
		every := rapid.IntRange(7, 80).Draw(t, "reopenEvery")
		for i := 0; i < n; i++ {
			sig, err := l.sk.Sign(nil)
			if err != nil {
				l.fatalf("Sign: %v", err)
			}
			if uint64(sig.SeqNo()) != uint64(i) {
				l.fatalf("index %d, want %d", sig.SeqNo(), i)
			}
			if pre {
				quiesce()
			}
			l.checkCache(t, pre, "after a signature")
			fi, e := os.Stat(b.path + ".cache")
			if e != nil {
				l.fatalf("%v", e)
			}
			limit := int64(4096 + slotStride(p)*p.D*2)
			if pre {
				limit = int64(4096 + slotStride(p)*p.D*3)
			}
			if fi.Size() > limit {
				l.fatalf("the cache file has %d bytes after %d signatures", fi.Size(), i+1)
			}
			if i%every == every-1 {
				l.log("reopen at %d", i+1)
				if err := l.sk.Close(); err != nil {
					l.fatalf("Close: %v", err)
				}
				if l.sk, _, _, err = l.b.open(); err != nil {
					l.fatalf("open: %v", err)
				}
				l.passed = nil
				if pre {
					l.sk.EnableSubTreePrecomputation()
				}
			}
			step("%v signature %d", p, i)
			eval()
		}
		nontrivial(fmt.Sprintf("C13 long %v %d %d %v", p, n, every, pre))
		label("long")
	})
}

// Precomputation that is late: the background is held up by chance, while
// signing goes on.
func TestC13_Late(t *testing.T) {
	check(t, 720, 4000, func(t *rapid.T) {
		p := genLife(t, 2, 1, 2, 4, 12)
		l := newLife(t, p, rapid.IntRange(0, 3).Draw(t, "onDisk") == 0)
		defer l.end()
		j := &jitter{calm: rapid.IntRange(1, 2).Draw(t, "calm"), long: rapid.SampledFrom([]int{500, 2000, 6000}).Draw(t, "long")}
		theLogger.j.Store(j)
		defer theLogger.j.Store(nil)
		l.sk.EnableSubTreePrecomputation()
		rounds := rapid.IntRange(1, 4).Draw(t, "rounds")
		par := rapid.IntRange(1, 4).Draw(t, "goroutines")
		for r := 0; r < rounds; r++ {
			n := rapid.IntRange(1, 4<<uint(p.TH())).Draw(t, "n")
			sigs := make([][]*xmssmt.Signature, par)
			errs := make([]error, par)
			var wg sync.WaitGroup
			for g := 0; g < par; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					errs[g] = protect(func() {
						for i := g; i < n; i += par {
							if s, err := l.sk.Sign([]byte{byte(g)}); err == nil {
								sigs[g] = append(sigs[g], s)
							}
						}
					})
				}()
			}
			wg.Wait()
			got := 0
			for g := range sigs {
				if errs[g] != nil {
					l.fatalf("Sign: %v", errs[g])
				}
				for _, s := range sigs[g] {
					l.next = 0
					l.released(uint64(s.SeqNo()), mustBytes(t, s), []byte{byte(g)})
				}
				got += len(sigs[g])
			}
			l.log("%d signatures by %d goroutines", got, par)
			if got < n && uint64(l.sk.SeqNo()) < p.Max() {
				l.fatalf("only %d of %d signatures were made, although indices are left", got, n)
			}
			quiesce()
			l.checkCache(t, true, "after signing")
			eval()
		}
		if len(l.used) > 2 {
			nontrivial(fmt.Sprintf("C13 late %v %v", p, l.hist))
		}
	})
}
