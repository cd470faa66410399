package props

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"
)

// Calls at once have the effects and results they have in some order, one
// after another, that respects which of them ended before another began.

type linCall struct {
	op   string
	a, b uint32
	// when it began and ended
	from, to int64
	val      uint64
	failed   bool
	why      string
}

func (c *linCall) String() string {
	s := c.op
	switch c.op {
	case "exactly":
		s = fmt.Sprintf("BorrowExactly(%d)", c.a)
	case "below":
		s = fmt.Sprintf("BorrowExactlyIfBelow(%d, %d)", c.a, c.b)
	}
	if c.failed {
		return fmt.Sprintf("[%d-%d] %s: %s", c.from, c.to, s, c.why)
	}
	return fmt.Sprintf("[%d-%d] %s = %d", c.from, c.to, s, c.val)
}

type linState struct {
	next     uint64
	borrowed uint32
}

// apply tells what the call does to the state, and whether its result fits.
func (s linState) apply(c *linCall, max uint64) (linState, bool) {
	borrow := func(a uint32) (linState, bool) {
		if s.borrowed != a && uint64(a) > max-s.next {
			return s, c.failed
		}
		return linState{s.next, a}, !c.failed
	}
	switch c.op {
	case "sign":
		if s.next >= max {
			return s, c.failed
		}
		if s.borrowed > 0 {
			return linState{s.next + 1, s.borrowed - 1}, !c.failed && c.val == s.next
		}
		return linState{s.next + 1, 0}, !c.failed && c.val == s.next
	case "exactly":
		return borrow(c.a)
	case "below":
		if s.borrowed > c.b {
			return s, !c.failed
		}
		return borrow(c.a)
	case "BorrowedSeqNos":
		return s, c.val == uint64(s.borrowed)
	case "SeqNo":
		return s, c.val == s.next
	}
	panic(c.op)
}

// inOrder tells whether there is an order of the calls that explains them.
func inOrder(calls []*linCall, start linState, max uint64, end func(linState) bool) bool {
	type key struct {
		done uint32
		s    linState
	}
	seen := map[key]bool{}
	var try func(done uint32, s linState) bool
	try = func(done uint32, s linState) bool {
		if done == 1<<uint(len(calls))-1 {
			return end(s)
		}
		k := key{done, s}
		if seen[k] {
			return false
		}
		seen[k] = true
		for i, c := range calls {
			if done>>uint(i)&1 == 1 {
				continue
			}
			first := true
			for j, d := range calls {
				if done>>uint(j)&1 == 0 && d.to < c.from {
					first = false
				}
			}
			if !first {
				continue
			}
			if s2, ok := s.apply(c, max); ok && try(done|1<<uint(i), s2) {
				return true
			}
		}
		return false
	}
	return try(0, start)
}

func inOrderRuns(t *testing.T, id string, quick, thorough int) {
	if raceBuild {
		quick, thorough = quick/6, thorough/6
	}
	check(t, quick, thorough, func(t *rapid.T) {
		p := P{Func: 0, N: 16, W: 16}
		th := rapid.IntRange(1, 3).Draw(t, "th")
		p.D = rapid.IntRange(1, 3).Draw(t, "d")
		p.H = th * p.D
		if p.H < 3 {
			p.H, p.D = 3, 3
		}
		l := newLife(t, p, false)
		defer l.end()
		c := l.b.(*memBackend).c
		s := linState{}
		for r := rapid.IntRange(1, 3).Draw(t, "rounds"); r > 0; r-- {
			left := p.Max() - s.next
			amount := func() uint32 {
				return uint32(rapid.IntRange(0, min(6, int(left)+1)).Draw(t, "amount"))
			}
			n := rapid.IntRange(2, 4).Draw(t, "goroutines")
			per := make([][]*linCall, n)
			var calls []*linCall
			for g := range per {
				for i := rapid.IntRange(1, 3).Draw(t, "calls"); i > 0; i-- {
					x := &linCall{op: pick(t, "op", "sign", 2, "exactly", 3, "below", 4, "BorrowedSeqNos", 1, "SeqNo", 1)}
					switch x.op {
					case "below":
						x.a, x.b = amount(), uint32(rapid.IntRange(0, 3).Draw(t, "below"))
					case "exactly":
						x.a = amount()
					}
					per[g] = append(per[g], x)
					calls = append(calls, x)
				}
			}
			j := &jitter{calm: 1, long: rapid.SampledFrom([]int{100, 2500}).Draw(t, "long")}
			c.settle()
			c.hook = func(string) { j.wait() }
			var now atomic.Int64
			var wg sync.WaitGroup
			bad := make([]error, n)
			go1 := make(chan struct{})
			for g := range per {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					<-go1
					bad[g] = protect(func() {
						for _, x := range per[g] {
							var err error
							x.from = now.Add(1)
							switch x.op {
							case "sign":
								sig, e := l.sk.Sign(nil)
								if e != nil {
									err = e
								} else {
									x.val = uint64(sig.SeqNo())
								}
							case "exactly":
								if e := l.sk.BorrowExactly(x.a); e != nil {
									err = e
								}
							case "below":
								if e := l.sk.BorrowExactlyIfBelow(x.a, x.b); e != nil {
									err = e
								}
							case "BorrowedSeqNos":
								x.val = uint64(l.sk.BorrowedSeqNos())
							case "SeqNo":
								x.val = uint64(l.sk.SeqNo())
							}
							x.to = now.Add(1)
							if err != nil {
								x.failed, x.why = true, err.Error()
							}
						}
					})
				}(g)
			}
			close(go1)
			wg.Wait()
			c.settle()
			c.hook = nil
			var what []string
			for g, e := range bad {
				if e != nil {
					l.fatalf("%v", e)
				}
				for _, x := range per[g] {
					what = append(what, fmt.Sprintf("%d: %v", g, x))
				}
			}
			end := linState{uint64(l.sk.SeqNo()), l.sk.BorrowedSeqNos()}
			stored := c.seqNo
			l.log("at %+v, %d goroutines:\n  %s\nthen %+v, stored: %d\n", s, n, strings.Join(what, "\n  "), end, stored)
			if !inOrder(calls, s, p.Max(), func(e linState) bool { return e == end }) {
				l.fatalf("no order of the calls explains their results")
			}
			if stored != end.next+uint64(end.borrowed) {
				l.fatalf("the stored index is %d", stored)
			}
			s = end
			over := 0
			for i, x := range calls {
				for _, y := range calls[:i] {
					if x.from < y.to && y.from < x.to {
						over++
					}
				}
				eval()
			}
			if over > 0 {
				nontrivial(fmt.Sprintf("%s order %v %v", id, p, l.hist))
				label("calls at once")
			}
		}
	})
}

func TestC25_AtOnce(t *testing.T) { inOrderRuns(t, "C25", 4000, 60000) }

func TestC08_InOrder(t *testing.T) { inOrderRuns(t, "C08", 1600, 30000) }
