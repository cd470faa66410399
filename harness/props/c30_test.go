package props

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C30: work that was done and kept is not done again.

// cpu returns the processor time used by this process, in milliseconds.
func cpu() float64 {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		infra("getrusage: %v", err)
	}
	return float64(u.Utime.Nano()+u.Stime.Nano()) / 1e6
}

// genHeavy draws parameters of which subtrees take long enough to be noticed.
func genHeavy(t *rapid.T, maxD int) P {
	p := genBase(t)
	var ths []int
	for th := 5; th <= 12; th++ {
		if ms := leafMs(p) * float64(int(1)<<uint(th)); ms > 15 && ms < 90 {
			ths = append(ths, th)
		}
	}
	if ths == nil {
		p.W = 16
		if p.Func != ref.SHA2 || p.N == 64 {
			ths = []int{5, 6}
		} else {
			ths = []int{7, 8}
		}
	}
	th := rapid.SampledFrom(ths).Draw(t, "th")
	for {
		d := rapid.IntRange(1, maxD).Draw(t, "d")
		if th*d <= 60 {
			p.D, p.H = d, d*th
			return p
		}
	}
}

// path lists the subtrees that a signature with the given index needs.
func path(p P, idx uint64) (r []xmssmt.SubTreeAddress) {
	for l := 0; l < p.D; l++ {
		r = append(r, xmssmt.SubTreeAddress{Layer: uint32(l), Tree: idx >> uint(p.TH()*(l+1))})
	}
	return
}

type costOp struct {
	op   string
	n    int    // goroutines, or which subtree
	at   uint64 // index
	seed uint64
}

func (o costOp) String() string {
	switch o.op {
	case "set":
		return fmt.Sprintf("set %d", o.at)
	case "parallel", "damage":
		return fmt.Sprintf("%s %d", o.op, o.n)
	}
	return o.op
}

// unitCost measures how long it takes to compute one subtree.
func unitCost(t *rapid.T, p P, k *ref.Key) float64 {
	q := p
	q.D, q.H = 1, p.TH()
	best := 0.0
	for i := 0; i < 2; i++ {
		mem := memCtrFor(&ref.Key{P: q, SkSeed: k.SkSeed, SkPrf: k.SkPrf, PubSeed: k.PubSeed}, 0)
		c0 := cpu()
		sk, _, _, err := xmssmt.LoadPrivateKeyFrom(mem)
		c := cpu() - c0
		if err != nil {
			t.Fatalf("load: %v", err)
		}
		sk.Close()
		best = max(best, c)
	}
	return best
}

// What an operation may take: the subtrees that have to be computed, a quarter more
// for the inaccuracy of measuring, and a little for the rest.  (Signing takes less
// than a tenth of a subtree.)
func tooLong(c float64, need int) bool { return c > float64(need)*1.25+0.6 }

// gauge finds the operations that take too long whenever they are tried.
type gauge struct {
	unit float64          // processor time one subtree takes
	op   int              // the operation that is next
	cur  map[int]string   // too long in this run, by operation
	bad  map[int][]string // too long in all runs so far
}

// attempts runs a history until no operation took too long in every run.
func attempts(what string, t *rapid.T, p P, k *ref.Key, run func(g *gauge)) {
	g := &gauge{}
	for i := 0; i < 8; i++ {
		g.unit, g.op, g.cur = unitCost(t, p, k), 0, map[int]string{}
		run(g)
		bad := map[int][]string{}
		for op, s := range g.cur {
			if i == 0 || g.bad[op] != nil {
				bad[op] = append(g.bad[op], s)
			}
		}
		if g.bad = bad; len(bad) == 0 {
			return
		}
	}
	for op := 0; op < g.op; op++ {
		if b := g.bad[op]; b != nil {
			t.Fatalf("%s: in each of %d runs, %s", what, len(b), strings.Join(b, "; "))
		}
	}
}

// measure notes whether something takes longer than computing some subtrees does.
func (g *gauge) measure(op string, f func() (need int)) {
	runtime.GC()
	c0 := cpu()
	need := f()
	c := (cpu() - c0) / g.unit
	eval()
	if tooLong(c, need) {
		g.cur[g.op] = fmt.Sprintf("%s took as long as computing %.1f subtrees, but only %d had to be computed", op, c, need)
	}
	g.op++
}

// genCostOps draws an operation, or a few that belong together.
func genCostOps(t *rapid.T) (r []costOp) {
	ops := []string{pick(t, "op", "sign", 8, "boundary", 3, "reopen", 3, "parallel", 3, "damage", 2, "lose", 1, "precompute", 2, "borrow", 2,
		"verify", 1, "cross", 3, "ahead", 3)}
	switch ops[0] {
	case "cross":
		ops = []string{"boundary", "sign", "sign"}
	case "ahead":
		// what was computed in advance is used later
		ops = []string{"precompute", "reopen", "boundary", "parallel", "sign"}
	}
	for _, op := range ops {
		r = append(r, costOp{op: op, n: rapid.IntRange(2, 4).Draw(t, "n"), seed: rapid.Uint64().Draw(t, "seed")})
	}
	return
}

func TestC30_Work(t *testing.T) {
	check(t, 320, 4800, func(t *rapid.T) {
		p := genHeavy(t, 4)
		k := genKey(t, p)
		threads := rapid.IntRange(1, 4).Draw(t, "threads")
		size := uint64(1) << uint(p.TH())
		var plan []costOp
		// start, mostly, a little ahead of a boundary
		start := genIndex(t, p)
		if rapid.IntRange(0, 3).Draw(t, "near") > 0 {
			start = min(start|(size-1), p.Max()-1) - min(2, p.Max()-1)
		}
		for i := rapid.IntRange(3, 12).Draw(t, "ops"); i > 0; i-- {
			plan = append(plan, genCostOps(t)...)
		}
		what := fmt.Sprintf("%v threads %d start %d: %v", p, threads, start, plan)
		step("C30 %s", what)
		var trees int
		attempts(what, t, p, k, func(g *gauge) {
			mem := memCtrFor(k, start)
			valid := map[xmssmt.SubTreeAddress]bool{}
			pre := false
			var sk *xmssmt.PrivateKey
			var pk *xmssmt.PublicKey
			defer func() {
				if sk != nil {
					sk.Close()
				}
			}()
			trees = 0
			// missing counts the subtrees that are not there
			need := map[xmssmt.SubTreeAddress]bool{}
			want := func(as []xmssmt.SubTreeAddress) {
				for _, a := range as {
					if !valid[a] {
						need[a] = true
					}
				}
			}
			measure := func(op string, f func()) {
				g.measure(op, func() int {
					f()
					if !quiesce() {
						t.Fatalf("%s: %s: the background does not come to rest", what, op)
					}
					return len(need)
				})
				trees += len(need)
				// what is there now
				for a := range need {
					if mem.cache[a] != nil {
						valid[a] = true
					}
				}
				for a := range valid {
					if mem.cache[a] == nil {
						delete(valid, a)
					}
				}
				need = map[xmssmt.SubTreeAddress]bool{}
			}
			load := func() {
				want(path(p, start)[p.D-1:])
				measure("opening the key", func() {
					var err xmssmt.Error
					sk, pk, _, err = xmssmt.LoadPrivateKeyFrom(mem)
					if err != nil {
						t.Fatalf("%s: load: %v", what, err)
					}
					sk.Context().Threads = threads
				})
				pre = false
			}
			load()
			// ahead tells what is computed in advance
			ahead := func(next uint64) {
				if pre && next>>uint(p.TH()) < (p.Max()-1)>>uint(p.TH()) {
					want(path(p, (next>>uint(p.TH())+1)<<uint(p.TH())))
				}
			}
			for _, o := range plan {
				s := uint64(sk.SeqNo())
				switch o.op {
				case "sign":
					if s >= p.Max() {
						continue
					}
					want(path(p, s))
					ahead(s + 1)
					measure("signing with index "+fmt.Sprint(s), func() {
						if _, err := sk.Sign(nil); err != nil {
							t.Fatalf("%s: sign: %v", what, err)
						}
					})
				case "parallel":
					if s+uint64(o.n) > p.Max() {
						continue
					}
					for i := 0; i < o.n; i++ {
						want(path(p, s+uint64(i)))
						ahead(s + uint64(i) + 1)
					}
					measure(fmt.Sprintf("signing %d times at once from index %d", o.n, s), func() {
						var wg sync.WaitGroup
						for i := 0; i < o.n; i++ {
							wg.Add(1)
							go func() {
								defer wg.Done()
								sk.Sign(nil)
							}()
						}
						wg.Wait()
					})
				case "boundary":
					// to the last index of this subtree
					if b := s | (size - 1); b < p.Max() && b > s {
						sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(b))
					}
				case "borrow":
					if s+uint64(o.n) <= p.Max() {
						measure("borrowing", func() { sk.BorrowExactly(uint32(o.n)) })
					}
				case "verify":
					if s >= p.Max() {
						continue
					}
					want(path(p, s))
					ahead(s + 1)
					measure("signing and verifying", func() {
						sig, err := sk.Sign(nil)
						if err != nil {
							t.Fatalf("%s: sign: %v", what, err)
						}
						if ok, err := pk.Verify(sig, nil); !ok {
							t.Fatalf("%s: verify: %v", what, err)
						}
					})
				case "precompute":
					pre = true
					ahead(s)
					measure("computing in advance", func() { sk.EnableSubTreePrecomputation() })
					if s >= p.Max() {
						continue
					}
				case "reopen", "damage", "lose":
					if err := sk.Close(); err != nil {
						t.Fatalf("%s: close: %v", what, err)
					}
					mem = mem.reopened()
					switch o.op {
					case "damage":
						i := 0
						for _, a := range path(p, min(s, p.Max()-1)) {
							if b := mem.cache[a]; b != nil {
								if i++; i == o.n-1 {
									b[o.seed%uint64(len(b))] ^= 1 << (o.seed >> 61)
									delete(valid, a)
								}
							}
						}
					case "lose":
						mem.cache = nil
						valid = map[xmssmt.SubTreeAddress]bool{}
					}
					load()
				}
				// the next subtree is there
				if s := uint64(sk.SeqNo()); pre && o.op != "boundary" && (o.op == "precompute" || s&(size-1) == 0) &&
					s>>uint(p.TH()) < (p.Max()-1)>>uint(p.TH()) {
					if a := path(p, (s>>uint(p.TH())+1)<<uint(p.TH()))[0]; mem.cache[a] == nil {
						t.Fatalf("%s: at index %d, the next subtree %v has not been computed in advance", what, s, a)
					}
				}
			}
		})
		nontrivial("C30 " + what)
		label("computed %d subtrees", min(trees, 8))
	})
}

// Keys on disk: creating, and signing once per opening.
func TestC30_OneShot(t *testing.T) {
	check(t, 120, 2000, func(t *rapid.T) {
		p := genHeavy(t, 3)
		k := genKey(t, p)
		size := uint64(1) << uint(p.TH())
		start := genIndex(t, p) | (size - 1)
		start = min(start, p.Max()-1)
		start -= min(start, rapid.Uint64Range(0, 3).Draw(t, "ahead"))
		n := rapid.IntRange(1, 6).Draw(t, "signatures")
		what := fmt.Sprintf("%v from %d, %d signatures", p, start, n)
		step("C30 %s", what)
		attempts(what, t, p, k, func(g *gauge) {
			dir := tmpDir()
			defer rmDir(dir)
			f := filepath.Join(dir, "key")
			measure := func(op string, need int, f func()) {
				g.measure(op, func() int { f(); return need })
			}
			measure("creating the key", p.D, func() {
				sk, _, err := derive(newCtx(t, p, 1), k, f)
				if err != nil {
					t.Fatalf("%s: create: %v", what, err)
				}
				if err := sk.Close(); err != nil {
					t.Fatalf("%s: close: %v", what, err)
				}
			})
			writeKeyFile(f, k, start, 0)
			for i := 0; i < n && start+uint64(i) < p.Max(); i++ {
				b, err := os.ReadFile(f + ".cache")
				if err != nil {
					t.Fatalf("%s: %v", what, err)
				}
				q := lib(p)
				c, err := parseCacheFile(b, q.CachedSubTreeSize())
				if err != nil {
					t.Fatalf("%s: %v", what, err)
				}
				need := 0
				for _, a := range path(p, start+uint64(i)) {
					if c.trees[a] == nil {
						need++
					}
				}
				measure(fmt.Sprintf("signing once with index %d", start+uint64(i)), need, func() {
					if _, err := xmssmt.Sign(f, nil); err != nil {
						t.Fatalf("%s: sign: %v", what, err)
					}
				})
			}
		})
		nontrivial("C30 oneshot " + what)
	})
}

// What is computed in advance is there when it is needed.
func TestC30_Ahead(t *testing.T) {
	check(t, 4000, 60000, func(t *rapid.T) {
		p := genLife(t, 10, 1, 3, 2, 20)
		k := genKey(t, p)
		size := uint64(1) << uint(p.TH())
		mem := memCtrFor(k, genIndex(t, p))
		open := func() *xmssmt.PrivateKey {
			sk, _, _, err := xmssmt.LoadPrivateKeyFrom(mem)
			if err != nil {
				t.Fatalf("load: %v", err)
			}
			sk.Context().Threads = 1
			return sk
		}
		sk := open()
		defer func() { sk.Close() }()
		hist := fmt.Sprintf("%v from %d:", p, mem.seqNo)
		pre, started := false, false
		crossed := 0
		for i := rapid.IntRange(3, 25).Draw(t, "ops"); i > 0; i-- {
			s := uint64(sk.SeqNo())
			n := rapid.IntRange(1, 6).Draw(t, "n")
			op := pick(t, "op", "sign", 6, "subtree", 4, "parallel", 3, "precompute", 4, "reopen", 1, "borrow", 3, "jump", 1)
			hist += fmt.Sprintf(" %s %d", op, n)
			step("C30 %s", hist)
			sign := func(n uint64) {
				for ; n > 0 && uint64(sk.SeqNo()) < p.Max(); n-- {
					if _, err := sk.Sign(nil); err != nil {
						t.Fatalf("%s: sign: %v", hist, err)
					}
				}
			}
			switch op {
			case "sign":
				sign(uint64(n))
			case "subtree":
				sign(size)
			case "parallel":
				if s+uint64(n) > p.Max() {
					continue
				}
				var wg sync.WaitGroup
				for j := 0; j < n; j++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						sk.Sign(nil)
					}()
				}
				wg.Wait()
			case "precompute":
				sk.EnableSubTreePrecomputation()
				pre, started = true, true
			case "borrow":
				if s+uint64(n) <= p.Max() {
					sk.BorrowExactly(uint32(n))
				}
			case "jump":
				if to := s + uint64(n)*size/2; to < p.Max() && sk.BorrowedSeqNos() == 0 {
					quiesce()
					sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(to))
					started = false
				}
			case "reopen":
				if err := sk.Close(); err != nil {
					t.Fatalf("%s: close: %v", hist, err)
				}
				mem = mem.reopened()
				sk = open()
				pre, started = false, false
			}
			if !quiesce() {
				t.Fatalf("%s: the background does not come to rest", hist)
			}
			e := uint64(sk.SeqNo())
			if e/size > s/size && op != "jump" && op != "reopen" && pre {
				started = true
				crossed++
			}
			if started && e/size < (p.Max()-1)/size {
				eval()
				if a := path(p, (e/size+1)*size)[0]; mem.cache[a] == nil {
					t.Fatalf("%s: at index %d, the next subtree %v has not been computed in advance", hist, e, a)
				}
			}
		}
		if crossed > 0 {
			nontrivial("C30 ahead " + hist)
			label("ahead: crossed %d", min(crossed, 8))
		}
	})
}

// While a subtree is computed in advance, signing does not wait for it.
func TestC30_Background(t *testing.T) {
	check(t, 120, 2000, func(t *rapid.T) {
		p := genHeavy(t, 3)
		if p.D == 1 {
			p.D, p.H = 2, 2*p.TH()
		}
		k := genKey(t, p)
		size := uint64(1) << uint(p.TH())
		start := genIndex(t, p)
		start -= start % size
		if start+size >= p.Max() {
			start = 0
		}
		start += rapid.Uint64Range(0, size-4).Draw(t, "at")
		what := fmt.Sprintf("%v from %d", p, start)
		step("C30 %s", what)
		for i := 0; ; i++ {
			mem := memCtrFor(k, start)
			sk, _, _, err := xmssmt.LoadPrivateKeyFrom(mem)
			if err != nil {
				t.Fatalf("%s: load: %v", what, err)
			}
			sk.Context().Threads = 1
			if _, err := sk.Sign(nil); err != nil {
				t.Fatalf("%s: sign: %v", what, err)
			}
			next := path(p, (start/size+1)*size)[0]
			if mem.cache[next] != nil {
				t.Fatalf("%s: harness: the next subtree is there already", what)
			}
			sk.EnableSubTreePrecomputation()
			time.Sleep(200 * time.Microsecond)
			if _, err := sk.Sign(nil); err != nil {
				t.Fatalf("%s: sign: %v", what, err)
			}
			waited := !insideLibrary()
			sk.Close()
			eval()
			if !waited {
				break
			}
			if i == 20 {
				t.Fatalf("%s: in each of %d runs, signing had to wait for the subtree that is computed in advance", what, i)
			}
		}
		nontrivial("C30 background " + what)
	})
}
