package props

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C35: the storage is used as its interface says.

// strictCtr is a container that does what the interface promises, and nothing
// more, and that notes what it is not made for.
type strictCtr struct {
	*memCtr
	mu     sync.Mutex
	misuse []string
	// whether the user meddles with the index
	meddled bool
	// whether setting the index failed, so that it is not known what is stored
	unsure bool
	// memory of subtrees that were dropped (or the like), and what is to stay there
	gone [][]byte
	// memory of the present ones, with a margin that belongs to somebody else
	whole    map[xmssmt.SubTreeAddress][]byte
	asked    bool // whether the parameters have been asked for since it was opened
	closeOks int
	shy      bool // never tells whether it has a subtree
}

const margin = 32

func newStrict(m *memCtr, shy bool) *strictCtr {
	c := &strictCtr{memCtr: m, whole: map[xmssmt.SubTreeAddress][]byte{}, shy: shy}
	m.reuse = false
	for a, b := range m.cache {
		m.cache[a] = c.place(a, b)
	}
	return c
}

func (c *strictCtr) note(f string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.misuse) < 5 {
		c.misuse = append(c.misuse, fmt.Sprintf(f, a...))
	}
}

// place returns memory for a subtree, with content b.
func (c *strictCtr) place(a xmssmt.SubTreeAddress, b []byte) []byte {
	w := make([]byte, len(b)+2*margin)
	for i := range w {
		w[i] = 0x5a
	}
	copy(w[margin:], b)
	c.whole[a] = w
	return w[margin : margin+len(b)]
}

// vacate is called when the memory of a subtree is not the library's any more.
func (c *strictCtr) vacate(a xmssmt.SubTreeAddress) {
	w := c.whole[a]
	if w == nil {
		return
	}
	c.checkMargin(a, w)
	for i := range w {
		w[i] = 0xdb
	}
	c.gone = append(c.gone, w)
	delete(c.whole, a)
}

func (c *strictCtr) vacateAll() {
	for a := range c.whole {
		c.vacate(a)
	}
}

func (c *strictCtr) checkMargin(a xmssmt.SubTreeAddress, w []byte) {
	for i := 0; i < margin; i++ {
		if w[i] != 0x5a || w[len(w)-1-i] != 0x5a {
			c.note("memory outside of the buffer of subtree %v is written to", a)
			return
		}
	}
}

// ready is called first in operations that need an initialised container.
func (c *strictCtr) ready(op string, cache bool) {
	if c.closed {
		c.note("%s after Close", op)
	} else if !c.init {
		c.note("%s before the container is initialised", op)
	} else if cache && c.cache == nil {
		c.note("%s before the cache is initialised", op)
	}
}

func (c *strictCtr) exists(a xmssmt.SubTreeAddress) bool {
	p := c.params
	if a.Layer >= p.D {
		return false
	}
	th := p.FullHeight / p.D
	return a.Tree < uint64(1)<<(p.FullHeight-th*(a.Layer+1))
}

func (c *strictCtr) GetSubTree(a xmssmt.SubTreeAddress) ([]byte, bool, xmssmt.Error) {
	defer c.done()
	c.ready("GetSubTree", true)
	if !c.exists(a) {
		c.note("GetSubTree(%v): the key has no such subtree", a)
	}
	b, had, err := c.memCtr.GetSubTree(a)
	if w := c.whole[a]; c.memCtr.cache != nil && c.memCtr.cache[a] != nil && w == nil {
		// It is new (even if the call fails).  What is there is of no significance.
		n := c.place(a, c.memCtr.cache[a])
		for i := range n {
			n[i] = byte(i * 7)
		}
		c.memCtr.cache[a] = n
		if b != nil {
			b = n
		}
	}
	if err != nil {
		return nil, false, err
	}
	return b[:len(b):len(b)], had, err
}

func (c *strictCtr) DropSubTree(a xmssmt.SubTreeAddress) xmssmt.Error {
	defer c.done()
	c.ready("DropSubTree", true)
	_, had := c.memCtr.cache[a]
	err := c.memCtr.DropSubTree(a)
	if _, has := c.memCtr.cache[a]; had && !has {
		c.vacate(a)
	}
	return err
}

func (c *strictCtr) ListSubTrees() ([]xmssmt.SubTreeAddress, xmssmt.Error) {
	defer c.done()
	c.ready("ListSubTrees", true)
	return c.memCtr.ListSubTrees()
}

func (c *strictCtr) HasSubTree(a xmssmt.SubTreeAddress) bool {
	defer c.done()
	return c.memCtr.HasSubTree(a) && !c.shy
}

func (c *strictCtr) ResetCache() xmssmt.Error {
	defer c.done()
	c.ready("ResetCache", false)
	old := c.memCtr.cache
	err := c.memCtr.ResetCache()
	if len(old) > 0 && len(c.memCtr.cache) == 0 {
		c.vacateAll()
	}
	return err
}

func (c *strictCtr) Reset(sk []byte, p xmssmt.Params) xmssmt.Error {
	defer c.done()
	if c.closed {
		c.note("Reset after Close")
	}
	if p.FullHeight > 0 && len(sk) != 3*int(p.N) {
		c.note("Reset with a private key of %d bytes (N is %d)", len(sk), p.N)
	}
	err := c.memCtr.Reset(sk, p)
	if len(c.memCtr.cache) == 0 {
		c.vacateAll()
	}
	// the caller's
	return err
}

func (c *strictCtr) max() uint64 { return uint64(1)<<c.params.FullHeight - 1 }

func (c *strictCtr) SetSeqNo(s xmssmt.SignatureSeqNo) xmssmt.Error {
	defer c.done()
	c.ready("SetSeqNo", false)
	if !c.meddled {
		if uint64(s) > c.max() {
			c.note("SetSeqNo(%d), but the key has only %d indices", s, c.max())
		}
		if !c.unsure && uint64(s) < c.seqNo && c.seqNo-uint64(s) > uint64(c.lost) {
			c.note("SetSeqNo(%d): the index is %d, and at most %d can be returned", s, c.seqNo, c.lost)
		}
	}
	err := c.memCtr.SetSeqNo(s)
	c.unsure = c.unsure || err != nil
	return err
}

func (c *strictCtr) BorrowSeqNos(n uint32) (xmssmt.SignatureSeqNo, xmssmt.Error) {
	defer c.done()
	c.ready("BorrowSeqNos", false)
	if !c.meddled && c.seqNo+uint64(n) > c.max() {
		c.note("BorrowSeqNos(%d): the index is %d, and the key has only %d", n, c.seqNo, c.max())
	}
	r, err := c.memCtr.BorrowSeqNos(n)
	c.unsure = c.unsure || err != nil
	return r, err
}

func (c *strictCtr) GetSeqNo() (xmssmt.SignatureSeqNo, uint32, xmssmt.Error) {
	defer c.done()
	c.ready("GetSeqNo", false)
	return c.memCtr.GetSeqNo()
}

// GetPrivateKey lends its own memory only for a moment.
func (c *strictCtr) GetPrivateKey() ([]byte, xmssmt.Error) {
	defer c.done()
	c.ready("GetPrivateKey", false)
	b, err := c.memCtr.GetPrivateKey()
	return append([]byte(nil), b...), err
}

func (c *strictCtr) Initialized() *xmssmt.Params {
	defer c.done()
	if c.closed {
		c.note("Initialized after Close")
	}
	return c.memCtr.Initialized()
}

func (c *strictCtr) CacheInitialized() bool {
	defer c.done()
	if c.closed {
		c.note("CacheInitialized after Close")
	}
	return c.memCtr.CacheInitialized()
}

func (c *strictCtr) Close() xmssmt.Error {
	defer c.done()
	if c.closed {
		c.note("Close after Close")
	}
	err := c.memCtr.Close()
	if c.closed {
		for a, w := range c.whole {
			c.checkMargin(a, w)
			// what is stored stays stored; the memory is something else now
			c.memCtr.cache[a] = append([]byte(nil), c.memCtr.cache[a]...)
		}
		c.vacateAll()
	}
	return err
}

// verdict reports what was noticed.
func (c *strictCtr) verdict() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	for a, w := range c.whole {
		for i := 0; i < margin; i++ {
			if w[i] != 0x5a || w[len(w)-1-i] != 0x5a {
				return fmt.Sprintf("memory outside of the buffer of subtree %v is written to", a)
			}
		}
	}
	for _, w := range c.gone {
		for _, x := range w {
			if x != 0xdb {
				return "memory of a subtree is written to after it was dropped (or the storage closed)"
			}
		}
	}
	if n := c.overlaps; n != 0 {
		return fmt.Sprintf("%d overlapping calls", n)
	}
	return strings.Join(c.misuse, "; ")
}

// done and settle tell the race detector that what the library does in the
// background comes before what is done here once it rests.
func (c *strictCtr) done() {
	c.mu.Lock()
	c.mu.Unlock()
}

func (c *strictCtr) settle() {
	quiesce()
	c.done()
}

func TestC35_Calls(t *testing.T) {
	q, th := 2400, 36000
	if raceBuild {
		q, th = 240, 4000
	}
	check(t, q, th, func(t *rapid.T) {
		p := genTall(t, 6, 1, 3, 2, 9)
		k := genKey(t, p)
		var hist []string
		log := func(f string, a ...interface{}) {
			hist = append(hist, fmt.Sprintf(f, a...))
			h := hist
			if len(h) > 12 {
				h = h[len(h)-12:]
			}
			step("C35 %v: %s", p, strings.Join(h, "; "))
		}
		fatalf := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("%s\nhistory of %v: %s", fmt.Sprintf(f, a...), p, strings.Join(hist, "; "))
		}
		nofail := func(f func()) {
			t.Helper()
			if e := protect(f); e != nil {
				fatalf("%v", e)
			}
		}
		var c *strictCtr
		var sk *xmssmt.PrivateKey
		defer func() {
			if sk != nil {
				c.settle()
				c.fault = nil
				sk.Close()
			}
		}()
		judge := func(when string) {
			t.Helper()
			c.settle()
			if v := c.verdict(); v != "" {
				fatalf("%s: %s", when, v)
			}
			eval()
		}
		var plan *faultPlan
		arm := func() {
			plan = nil
			c.fault = nil
			if rapid.IntRange(0, 2).Draw(t, "faults") == 0 {
				plan = genPlan(t)
				c.fault = plan.fault
				log("%v", plan)
			}
		}
		heal := func() { c.fault = nil }
		shy := rapid.IntRange(0, 3).Draw(t, "shy") == 0
		base := newMemCtr()
		if rapid.Bool().Draw(t, "used") {
			base = memCtrFor(k, genIndex(t, p))
			if rapid.Bool().Draw(t, "noCache") {
				base.cache = nil
			}
		}
		signed := 0
		var mu sync.Mutex
		sign := func() (e string) {
			sig, err := sk.Sign([]byte("m"))
			if err != nil {
				return ""
			}
			b, e2 := sig.MarshalBinary()
			if e2 != nil {
				return e2.Error()
			}
			if ok, err := xmssmt.Verify(k.PK(), b, []byte("m")); !ok {
				return fmt.Sprintf("the signature with index %d is refused: %v", sig.SeqNo(), err)
			}
			mu.Lock()
			defer mu.Unlock()
			signed++
			return ""
		}
		hits := 0
		for s := rapid.IntRange(1, 4).Draw(t, "sessions"); s > 0; s-- {
			c = newStrict(base, shy)
			arm()
			var err xmssmt.Error
			create := !base.init || rapid.IntRange(0, 9).Draw(t, "createAgain") == 0
			ctx := newCtx(t, p, rapid.IntRange(0, 2).Draw(t, "threads"))
			nofail(func() {
				if create {
					sk, _, err = deriveInto(ctx, k, c)
				} else {
					sk, _, _, err = xmssmt.LoadPrivateKeyFrom(c)
				}
			})
			log("open (create: %v): %v", create, err)
			judge("opening the key")
			if err != nil {
				if plan == nil || plan.hits == 0 {
					fatalf("can not open: %v", err)
				}
				hits++
				sk = nil
				base = c.memCtr.reopened()
				continue
			}
			for i := rapid.IntRange(0, 14).Draw(t, "ops"); i > 0; i-- {
				bad := ""
				switch op := pick(t, "op", "sign", 8, "parallel", 2, "fail", 2, "borrow", 3, "below", 1, "precompute", 2, "meddle", 1, "arm", 1,
					"query", 1, "end", 1); op {
				case "sign":
					nofail(func() { bad = sign() })
					log("sign")
				case "parallel":
					n := rapid.IntRange(2, 5).Draw(t, "goroutines")
					j := newJitter(t)
					todo := make([][]func() string, n)
					var what []string
					for g := range todo {
						for i := rapid.IntRange(1, 4).Draw(t, "calls"); i > 0; i-- {
							op := pick(t, "call", "sign", 6, "fail", 1, "borrow", 2, "below", 1, "precompute", 1,
								"SeqNo", 1, "UnretiredSeqNos", 1, "CachedSubTrees", 1, "BorrowedSeqNos", 1, "PublicKey", 1)
							what = append(what, fmt.Sprintf("%d:%s", g, op))
							var f func()
							switch op {
							case "sign":
								todo[g] = append(todo[g], sign)
								continue
							case "fail":
								r := failingReader(t)
								f = func() { sk.SignFrom(r) }
							case "borrow":
								a := genAmount(t, 6, 6)
								f = func() { sk.BorrowExactly(a) }
							case "below":
								a, b := genAmount(t, 6, 6), uint32(rapid.IntRange(0, 3).Draw(t, "below"))
								f = func() { sk.BorrowExactlyIfBelow(a, b) }
							case "precompute":
								f = func() { sk.EnableSubTreePrecomputation() }
							case "SeqNo":
								f = func() { sk.SeqNo() }
							case "UnretiredSeqNos":
								f = func() { sk.UnretiredSeqNos() }
							case "CachedSubTrees":
								f = func() { sk.CachedSubTrees() }
							case "BorrowedSeqNos":
								f = func() { sk.BorrowedSeqNos() }
							case "PublicKey":
								f = func() { sk.PublicKey().MarshalText() }
							}
							todo[g] = append(todo[g], func() string { f(); return "" })
						}
					}
					log("parallel: %s", strings.Join(what, " "))
					res := make([]string, n)
					c.settle()
					c.hook = func(string) { j.wait() }
					theLogger.j.Store(j)
					var wg sync.WaitGroup
					for g := range todo {
						wg.Add(1)
						go func(g int) {
							defer wg.Done()
							if e := protect(func() {
								for _, f := range todo[g] {
									res[g] += f()
									j.wait()
								}
							}); e != nil {
								res[g] = e.Error()
							}
						}(g)
					}
					wg.Wait()
					c.settle()
					theLogger.j.Store(nil)
					c.hook = nil
					bad = strings.Join(res, "")
				case "fail":
					nofail(func() { sk.SignFrom(failingReader(t)) })
					log("fail")
				case "borrow", "below":
					a := genAmount(t, 6, p.Max()-min(p.Max(), uint64(sk.SeqNo())))
					log("%s %d", op, a)
					nofail(func() {
						if op == "below" {
							sk.BorrowExactlyIfBelow(a, uint32(rapid.IntRange(0, 3).Draw(t, "below")))
						} else {
							sk.BorrowExactly(a)
						}
					})
				case "precompute":
					log("precompute")
					nofail(func() { sk.EnableSubTreePrecomputation() })
				case "meddle":
					n := genIndex(t, p)
					log("set %d", n)
					c.settle()
					c.meddled = true
					nofail(func() { sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(n)) })
				case "arm":
					c.settle()
					arm()
				case "query":
					nofail(func() { sk.SeqNo(); sk.UnretiredSeqNos(); sk.CachedSubTrees(); sk.PublicKey().MarshalText() })
				case "end":
					// near the end of the key
					n := p.Max() - min(p.Max(), uint64(rapid.IntRange(0, 3).Draw(t, "fromEnd")))
					log("set %d", n)
					c.settle()
					c.meddled = true
					nofail(func() { sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(n)) })
				}
				if bad != "" {
					fatalf("%s", bad)
				}
				if rapid.IntRange(0, 3).Draw(t, "look") == 0 {
					judge("then")
				}
			}
			c.settle()
			if plan != nil {
				hits += plan.hits
			}
			if rapid.IntRange(0, 3).Draw(t, "crash") == 0 {
				log("crash")
				c.settle()
				nofail(func() { sk.UnretiredSeqNos() }) // synchronises with what was written to the subtrees
				n := c.memCtr.reopened()
				heal()
				nofail(func() { sk.Close() })
				judge("closing the key")
				base, sk = n, nil
				continue
			}
			if rapid.Bool().Draw(t, "healBeforeClose") {
				c.settle()
				heal()
			}
			nofail(func() { err = sk.Close() })
			log("close: %v", err)
			if err != nil {
				c.settle()
				heal()
				if !c.closed {
					nofail(func() { err = sk.Close() })
					log("close: %v", err)
				}
			}
			judge("closing the key")
			// it is closed: nothing of it gets to the storage any more
			for i := rapid.IntRange(0, 3).Draw(t, "after"); i > 0; i-- {
				nofail(func() {
					switch rapid.IntRange(0, 3).Draw(t, "afterOp") {
					case 0:
						sk.Sign(nil)
					case 1:
						sk.BorrowExactly(3)
					case 2:
						sk.EnableSubTreePrecomputation()
					case 3:
						sk.SeqNo()
					}
				})
				if err == nil {
					judge("after Close")
				}
			}
			base, sk = c.memCtr.reopened(), nil
		}
		if signed > 0 {
			nontrivial(fmt.Sprintf("C35 %v %v", p, hist))
			label("histories")
			if hits > 0 {
				label("with failures")
			}
		}
	})
}
