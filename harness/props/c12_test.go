package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C12: an interrupted cache update never poisons later signatures.

// moment is what a container that reuses space holds at some moment.
type moment struct {
	c    *memCtr
	when string
	next uint64 // signatures released up to then
}

// camera takes pictures of a container.
type camera struct {
	mux    sync.Mutex
	c      *memCtr
	want   func(op string) bool
	taken  []moment
	next   uint64
	n      int
	logged int
}

func (cam *camera) take(when string) {
	cam.taken = append(cam.taken, moment{cam.c.reopened(), when, cam.next})
}

// setNext notes that a signature is about to leave the library.
func (cam *camera) setNext(n uint64) {
	cam.mux.Lock()
	cam.next = n
	cam.mux.Unlock()
}

// watch takes pictures at some of the calls into the container, and while the
// contents of subtrees are being written.
func (cam *camera) watch(t *rapid.T) {
	density := rapid.SampledFrom([]int{2, 5, 12}).Draw(t, "density")
	seed := rapid.Uint64().Draw(t, "pictures")
	cam.c.hook = func(op string) {
		cam.mux.Lock()
		defer cam.mux.Unlock()
		cam.n++
		r := sum64([]byte(fmt.Sprint(seed, cam.n)))
		if len(cam.taken) < 40 && (op == "GetSubTree: new" && r%2 == 0 || r%uint64(density) == 0) {
			cam.take(op)
		}
	}
}

// torn mixes, in one cached subtree, what was there before with what is there.
func torn(t *rapid.T, c *memCtr) string {
	var as []xmssmt.SubTreeAddress
	for a := range c.before {
		if _, ok := c.cache[a]; ok {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return ""
	}
	sort.Slice(as, func(i, j int) bool {
		return as[i].Layer < as[j].Layer || as[i].Layer == as[j].Layer && as[i].Tree < as[j].Tree
	})
	a := as[rapid.IntRange(0, len(as)-1).Draw(t, "torn")]
	old, cur := c.before[a], c.cache[a]
	n := len(cur)
	switch rapid.IntRange(0, 5).Draw(t, "tear") {
	case 0: // written in order up to some point
		cut := int(spread(t, "cut")) % n
		copy(cur[cut:], old[cut:])
		return fmt.Sprintf("%v cut at %d of %d", a, cut, n)
	case 1: // all but the checksum
		copy(cur[n-8:], old[n-8:])
		return fmt.Sprintf("%v without checksum", a)
	case 2: // nothing but the checksum
		copy(cur[:n-8], old[:n-8])
		return fmt.Sprintf("%v only checksum", a)
	case 3: // some pages
		m := rapid.Uint64().Draw(t, "pages")
		for i := 0; i*4096 < n; i++ {
			if m>>uint(i%64)&1 == 0 {
				e := min(n, i*4096+4096)
				copy(cur[i*4096:e], old[i*4096:e])
			}
		}
		return fmt.Sprintf("%v some pages", a)
	case 4: // the last part of the checksum
		k := rapid.IntRange(1, 7).Draw(t, "k")
		copy(cur[n-k:], old[n-k:])
		return fmt.Sprintf("%v part of the checksum", a)
	default:
		x := int(spread(t, "from")) % n
		y := min(n, x+1+int(spread(t, "len"))%200)
		copy(cur[x:y], old[x:y])
		return fmt.Sprintf("%v without %d:%d", a, x, y)
	}
}

func TestC12_Memory(t *testing.T) {
	check(t, 2400, 14000, func(t *rapid.T) {
		p := genLife(t, 5, 1, 5, 2, 12)
		l := newCrashLife(t, p, genKey(t, p))
		c0 := newMemCtr()
		c0.reuse = true
		// run uses a container for a while
		run := func(l *life, c *memCtr, create bool) []moment {
			cam := &camera{c: c, next: l.next}
			cam.watch(t)
			var sk *xmssmt.PrivateKey
			var pk *xmssmt.PublicKey
			var err xmssmt.Error
			if create {
				sk, pk, err = deriveInto(newCtx(t, p, 1), l.k, c)
			} else {
				sk, pk, _, err = xmssmt.LoadPrivateKeyFrom(c)
			}
			if err != nil {
				l.fatalf("open: %v", err)
			}
			same(t, "public key", mustBytes(t, pk), l.k.PK())
			if create && rapid.Bool().Draw(t, "jump") {
				to := genIndex(t, p)
				sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(to))
				l.log("jump to %d", to)
			}
			if rapid.IntRange(0, 2).Draw(t, "precompute") == 0 {
				sk.EnableSubTreePrecomputation()
				l.log("precompute")
			}
			n := 1 + int(spread(t, "signs"))%(3<<uint(min(p.TH(), 3)))
			for i := 0; i < n && uint64(sk.SeqNo()) < p.Max(); i++ {
				cam.setNext(uint64(sk.SeqNo()) + 1)
				sig, err := sk.Sign(nil)
				if err != nil {
					l.fatalf("Sign: %v", err)
				}
				l.released(uint64(sig.SeqNo()), mustBytes(t, sig), nil)
			}
			l.log("sign %d times", n)
			if err := sk.Close(); err != nil {
				l.fatalf("Close: %v", err)
			}
			cam.mux.Lock()
			defer cam.mux.Unlock()
			cam.take("end")
			return cam.taken
		}
		ms := run(l, c0, true)
		var visit func(l *life, ms []moment, depth int)
		visit = func(l *life, ms []moment, depth int) {
			k := 4
			if depth > 0 {
				k = 1
			}
			for i := 0; i < k; i++ {
				m := ms[int(spread(t, "moment"))%len(ms)]
				c := m.c.reopened()
				n := newCrashLife(t, p, l.k)
				n.hist = append([]string(nil), l.hist...)
				tear := ""
				if rapid.Bool().Draw(t, "tornOne") {
					tear = torn(t, c)
				}
				what := fmt.Sprintf("lost at %s %s", m.when, tear)
				if !c.init {
					label("nothing stored yet")
					continue
				}
				n.log("%s", what)
				if depth == 0 && i == 0 && rapid.Bool().Draw(t, "again") {
					visit(n, run(n, c, false), depth+1)
					continue
				}
				var sk *xmssmt.PrivateKey
				var pk *xmssmt.PublicKey
				var err xmssmt.Error
				n.noPanic("open", func() { sk, pk, _, err = xmssmt.LoadPrivateKeyFrom(c) })
				if err != nil {
					n.fatalf("the key can not be opened: %v", err)
				}
				same(t, fmt.Sprintf("public key after %v", n.hist), mustBytes(t, pk), l.k.PK())
				// through this subtree and into the next one
				left := 1<<uint(p.TH()) - int(uint64(sk.SeqNo())&(1<<uint(p.TH())-1))
				if rapid.IntRange(0, 3).Draw(t, "far") == 0 {
					n.signSome(sk, min(left, 12), what)
				} else {
					n.signSome(sk, 1, what)
					// and where the next ones begin
					for layer := 1; layer < p.D; layer++ {
						sz := uint64(1) << uint(layer*p.TH())
						to := (uint64(sk.SeqNo()) + sz - 1) / sz * sz
						if to < p.Max() && rapid.Bool().Draw(t, "next") {
							sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(to))
							n.signSome(sk, 1, what)
						}
					}
				}
				sk.Close()
				eval()
				label("lost: %.20s", m.when)
				if tear != "" {
					label("torn")
				}
				nontrivial(fmt.Sprintf("C12 memory %v %v", p, n.hist))
			}
		}
		visit(l, ms, 0)
	})
}

// On disk, with processes that are killed or stopped.
func TestC12_Killed(t *testing.T) {
	strace := haveStrace()
	check(t, 480, 3000, func(t *rapid.T) {
		p := genLife(t, 12, 1, 6, 2, 14)
		k := genKey(t, p)
		root := tmpDir()
		defer rmDir(root)
		l0 := newCrashLife(t, p, k)
		// the state to begin with: next to the end of a subtree of some layer
		base := filepath.Join(root, "base")
		os.Mkdir(base, 0700)
		sk, _, err := derive(newCtx(t, p, 1), k, filepath.Join(base, "key"))
		if err != nil {
			l0.fatalf("create: %v", err)
		}
		layer := rapid.IntRange(1, p.D).Draw(t, "layer")
		sz := uint64(1) << uint(layer*p.TH())
		end := (1 + uint64(spread(t, "tree"))%(p.Max()/sz+1)) * sz
		back := uint64(rapid.IntRange(0, 5).Draw(t, "back"))
		at := uint64(0)
		if end > back {
			at = end - back
		}
		if at >= p.Max() {
			at = p.Max() - 1
		}
		// some earlier signatures: dirty space
		for i := rapid.IntRange(0, 2).Draw(t, "earlier"); i > 0; i-- {
			x := uint64(spread(t, "early")) % (at + 1)
			if x > uint64(sk.SeqNo()) {
				sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(x))
				if _, err := sk.Sign(nil); err != nil {
					l0.fatalf("Sign: %v", err)
				}
			}
		}
		if uint64(sk.SeqNo()) < at {
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(at))
		} else {
			at = uint64(sk.SeqNo())
		}
		if rapid.Bool().Draw(t, "warm") && at < p.Max() {
			if _, err := sk.Sign(nil); err != nil {
				l0.fatalf("Sign: %v", err)
			}
			at++
		}
		if err := sk.Close(); err != nil {
			l0.fatalf("Close: %v", err)
		}
		writeKeyFile(filepath.Join(base, "key"), k, at, 0) // setting the index was not stored
		l0.next = at
		l0.log("at %d of %d", at, p.Max())
		ops := []cmdT{{Op: "load"}}
		if rapid.Bool().Draw(t, "precompute") {
			ops = append(ops, cmdT{Op: "precompute"})
		}
		for i := rapid.IntRange(1, 8).Draw(t, "signs"); i > 0; i-- {
			ops = append(ops, cmdT{Op: "sign", Msg: "61"})
		}
		ops = append(ops, cmdT{Op: "close"})
		l0.log("%s", opNames(ops))
		fresh := func(i int) (dir, path string) {
			dir = filepath.Join(root, fmt.Sprintf("r%d", i))
			os.MkdirAll(filepath.Join(dir, "k"), 0700)
			path = filepath.Join(dir, "k", "key")
			copyKey(filepath.Join(base, "key"), path)
			return
		}
		after := func(l *life, path, what string) {
			sk := l.restart(path, true, what)
			if sk == nil {
				return
			}
			left := 1<<uint(p.TH()) - int(uint64(sk.SeqNo())&(1<<uint(p.TH())-1))
			l.signSome(sk, min(left+1, rapid.IntRange(2, 10).Draw(t, "after")), what)
			for layer := 1; layer < p.D; layer++ {
				sz := uint64(1) << uint(layer*p.TH())
				if to := (uint64(sk.SeqNo()) + sz - 1) / sz * sz; to < p.Max() {
					sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(to))
					l.signSome(sk, 1, what)
				}
			}
			sk.Close()
			eval()
			nontrivial(fmt.Sprintf("C12 disk %v %v %s", p, l.hist, what))
		}
		// snapshots
		dir, path := fresh(0)
		var delays []time.Duration
		for i := 0; i < 10; i++ {
			delays = append(delays, time.Duration(rapid.IntRange(0, 1500).Draw(t, "delay"))*time.Microsecond)
		}
		type state struct {
			s    snapshot
			path string
		}
		var states []state
		step("C12 %v %v", p, l0.hist)
		t0 := time.Now()
		replies, bad := takeSnapshots(dir, withPath(ops, path), delays, func(i int, s snapshot) {
			d := filepath.Join(root, fmt.Sprintf("s%d", i))
			os.Mkdir(d, 0700)
			copyKey(path, filepath.Join(d, "key"))
			states = append(states, state{s, filepath.Join(d, "key")})
		})
		took := time.Since(t0)
		if bad != "" {
			l0.fatalf("the process did not end as it should: %s", bad)
		}
		whole := l0.fork()
		whole.absorb(withPath(ops, path), replies, "not killed")
		after(whole, path, "not killed")
		for _, st := range states {
			l := l0.fork()
			what := fmt.Sprintf("stopped after %v, %d commands", st.s.at, len(st.s.replies))
			l.absorb(withPath(ops, path), st.s.replies, what)
			after(l, st.path, what)
			label("snapshots")
		}
		// kills
		var calls []tracedCall
		if strace {
			dir, path = fresh(1)
			full := runScript(dir, withPath(ops, path), []string{"-y", "-e", "trace=" + alterCalls}, 0)
			calls = tracedCalls(full.Trace)
		}
		for i := 2; i < 8; i++ {
			dir, path := fresh(i)
			l := l0.fork()
			at := spread(t, "at")
			var r scriptRun
			what := ""
			if len(calls) > 0 && i%3 != 0 {
				r = runScript(dir, withPath(ops, path), killAt(choose(calls, at)), 0)
				what = "killed entering " + lastCall(r.Trace)
			} else {
				r = runScript(dir, withPath(ops, path), nil, 1+time.Duration(float64(took)*float64(at)/(1<<32)))
				what = "killed at a random moment"
			}
			if !r.Killed {
				if r.Exit != 0 {
					l.fatalf("the process ended with status %d: %s", r.Exit, firstLines(r.Stderr, 20))
				}
				what = "not killed"
			}
			label("%s", what)
			what += fmt.Sprintf(" after %d commands", len(r.Replies))
			l.absorb(withPath(ops, path), r.Replies, what)
			after(l, path, what)
		}
	})
}
