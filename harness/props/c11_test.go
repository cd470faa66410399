package props

import (
	"encoding/binary"
	"fmt"
	"os"
	"sync"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C11: loss or damage of the cache never shows in the results.

// cachedSize is the documented size of the buffer of a cached subtree.
func cachedSize(p P) int {
	return (1<<uint(p.TH()+1)-1)*p.N + p.WotsBytes() + 8
}

func slotStride(p P) int { return (cachedSize(p) + 13 + 4095) / 4096 * 4096 }

// tamper damages a cache file with its layout in mind.
func tamper(t *rapid.T, p P, path string, others [][]byte) string {
	b, err := os.ReadFile(path)
	if err != nil {
		b = nil
	}
	st := slotStride(p)
	slots := (len(b) - 4096) / st
	if slots < 0 {
		slots = 0
	}
	what := ""
	kind := pick(t, "tamper", "blunt", 6, "swap", 2, "copySlot", 2, "relabel", 3, "allocated", 2, "count", 2, "align", 1,
		"other", 3, "zero", 1, "checksum", 2, "nodes", 3, "grow", 1, "cutTail", 2, "cutAligned", 1)
	if slots == 0 && kind != "other" {
		kind = "blunt"
	}
	slot := func(n string) int { return 4096 + st*rapid.IntRange(0, slots-1).Draw(t, n) }
	switch kind {
	case "blunt":
		return damageCache(t, path, false)
	case "swap":
		i, j := slot("i"), slot("j")
		tmp := append([]byte(nil), b[i+13:i+st]...)
		copy(b[i+13:i+st], b[j+13:j+st])
		copy(b[j+13:j+st], tmp)
	case "copySlot":
		i, j := slot("i"), slot("j")
		copy(b[i:i+st], append([]byte(nil), b[j:j+st]...))
	case "relabel": // another address
		i := slot("i")
		b[i] = 1
		binary.BigEndian.PutUint32(b[i+1:], uint32(rapid.IntRange(0, p.D).Draw(t, "layer")))
		binary.BigEndian.PutUint64(b[i+5:], uint64(rapid.IntRange(0, 5).Draw(t, "tree")))
	case "allocated":
		b[slot("i")] = byte(rapid.IntRange(0, 2).Draw(t, "flag"))
	case "count":
		n := binary.BigEndian.Uint32(b[8:])
		binary.BigEndian.PutUint32(b[8:], uint32(int64(n)+int64(rapid.IntRange(-3, 3).Draw(t, "more"))))
		if rapid.IntRange(0, 3).Draw(t, "huge") == 0 {
			binary.BigEndian.PutUint32(b[8:], uint32(rapid.Uint64().Draw(t, "count")))
		}
	case "align":
		binary.BigEndian.PutUint32(b[13:], uint32(rapid.SampledFrom([]int64{0, 1, 13, 17, 512, 4095, 4097, 8192, 1 << 20, 1 << 30, -1, 1 << 31}).Draw(t, "align")))
	case "other":
		if len(others) == 0 {
			return "nothing"
		}
		b = others[rapid.IntRange(0, len(others)-1).Draw(t, "other")]
		what = fmt.Sprintf(" (%d bytes)", len(b))
	case "zero":
		i := slot("i")
		for x := i + 13; x < i+st; x++ {
			b[x] = 0
		}
	case "checksum":
		x := slot("i") + 13 + cachedSize(p) - 8
		for y := x; y < x+8; y++ {
			b[y] = 0
		}
	case "nodes":
		x := slot("i") + 13
		for i := rapid.IntRange(1, 6).Draw(t, "n"); i > 0; i-- {
			b[x+rapid.IntRange(0, cachedSize(p)-1).Draw(t, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
		}
	case "cutTail": // pages of the last subtrees
		n := len(b) - 4096*rapid.IntRange(1, 2*st/4096).Draw(t, "pages") + rapid.SampledFrom([]int{0, 0, 1, -1, 100, 4095}).Draw(t, "cutOff")
		b = b[:max(0, min(n, len(b)))]
	case "cutAligned": // at or next to the end of what there is of the last subtree
		n := slot("i") + 13 + rapid.SampledFrom([]int{cachedSize(p), cachedSize(p) - 8, (1<<uint(p.TH()+1) - 1) * p.N, 0, -13, st - 13}).Draw(t, "part") +
			rapid.IntRange(-2, 2).Draw(t, "cutOff")
		b = b[:max(0, min(n, len(b)))]
	case "grow":
		b = append(b, expand(rapid.Uint64().Draw(t, "tail"), rapid.IntRange(0, 3*st).Draw(t, "tailLen"))...)
	}
	if err := os.WriteFile(path, b, 0600); err != nil {
		infra("write cache: %v", err)
	}
	return kind + what
}

func TestC11_Disk(t *testing.T) {
	check(t, 2800, 30000, func(t *rapid.T) {
		p := genLife(t, 8, 1, 4, 3, 12)
		if rapid.IntRange(0, 5).Draw(t, "manyPages") == 0 {
			// subtrees of several pages
			p.Func, p.N, p.W = rapid.SampledFrom([]int{ref.SHA2, ref.SHAKE}).Draw(t, "pagesFunc"), 64, rapid.SampledFrom([]int{4, 16}).Draw(t, "pagesW")
			th := rapid.IntRange(1, 3).Draw(t, "pagesTH")
			p.D = rapid.IntRange(1, 3).Draw(t, "pagesD")
			p.H = th * p.D
			if p.H < 2 {
				p.H, p.D = 2, 2
			}
		}
		l := newLife(t, p, true)
		defer l.end()
		b := l.b.(*fsBackend)
		// caches of other keys, other parameters, and earlier times
		var others [][]byte
		keep := func(path string) {
			if c, err := os.ReadFile(path); err == nil && len(others) < 12 {
				others = append(others, c)
			}
		}
		if rapid.Bool().Draw(t, "withOthers") {
			q := p
			switch rapid.IntRange(0, 6).Draw(t, "otherKind") {
			case 0:
				q.NIST = !q.NIST
			case 1:
				q.Func = (q.Func + 1) % 3
			case 2:
				if q.TH() > 1 {
					q.H = (q.TH() - 1) * q.D
				}
			case 3:
				q.D++
				q.H += p.TH()
			case 4:
				if q.D > 1 && q.H-q.TH() > 1 {
					q.D--
					q.H -= p.TH()
				}
			}
			k2 := genKey(t, q)
			if q == p && rapid.Bool().Draw(t, "samePub") {
				copy(k2.PubSeed, l.k.PubSeed)
			} else if q != p && rapid.Bool().Draw(t, "sameSeeds") {
				copy(k2.PubSeed, l.k.PubSeed)
				copy(k2.SkSeed, l.k.SkSeed)
				copy(k2.SkPrf, l.k.SkPrf)
			}
			o := b.dir + "/other"
			sk, _, err := derive(newCtx(t, q, 1), k2, o)
			if err != nil {
				t.Fatalf("derive: %v", err)
			}
			for i := 0; i < 3 && uint64(i) < q.Max(); i++ {
				if _, err := sk.Sign(nil); err != nil {
					t.Fatalf("Sign: %v", err)
				}
				keep(o + ".cache")
			}
			sk.Close()
		}
		next := uint64(0)
		if rapid.IntRange(0, 2).Draw(t, "somewhere") == 0 {
			next = genIndex(t, p)
			l.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(next))
			l.log("start at %d", next)
		}
		sign := func(n int, first bool) {
			for i := 0; i < n && next < p.Max(); i++ {
				msg := []byte{byte(i)}
				sig, err := l.sk.Sign(msg)
				if err != nil {
					l.fatalf("Sign at %d: %v", next, err)
				}
				if uint64(sig.SeqNo()) != next {
					l.fatalf("index %d is used, want %d", sig.SeqNo(), next)
				}
				same(t, fmt.Sprintf("signature %d after %v", next, l.hist), mustBytes(t, sig), l.k.Sign(next, msg))
				l.log("sign=%d", next)
				next++
				eval()
				if rapid.IntRange(0, 4).Draw(t, "keep") == 0 {
					keep(b.path + ".cache")
				}
			}
		}
		sign(1, true)
		rounds := rapid.IntRange(1, 5).Draw(t, "rounds")
		damaged := 0
		for r := 0; r < rounds; r++ {
			if rapid.IntRange(0, 3).Draw(t, "precompute") == 0 {
				l.sk.EnableSubTreePrecomputation()
			}
			sign(rapid.IntRange(0, 2<<uint(p.TH())).Draw(t, "nBefore"), false)
			if err := l.sk.Close(); err != nil {
				l.fatalf("Close: %v", err)
			}
			l.sk = nil
			what := ""
			for i := rapid.IntRange(1, 3).Draw(t, "damages"); i > 0; i-- {
				what = tamper(t, p, b.path+".cache", others)
				l.log("cache: %s", what)
				label("damage: %s", what)
			}
			damaged++
			sk, pk, lost, err := l.b.open()
			if err != nil {
				l.fatalf("the key can not be opened: %v", err)
			}
			l.sk = sk
			if pb := mustBytes(t, pk); string(pb) != string(l.k.PK()) {
				l.fatalf("the public key is different")
			}
			if uint64(sk.SeqNo()) != next || lost != 0 {
				l.fatalf("the next index is %d (%d lost), want %d", sk.SeqNo(), lost, next)
			}
			sign(rapid.IntRange(1, 2<<uint(p.TH())).Draw(t, "nAfter"), false)
		}
		nontrivial(fmt.Sprintf("C11 %v %v", p, l.hist))
	})
}

// The same with a container of another kind.
func TestC11_Memory(t *testing.T) {
	check(t, 2400, 20000, func(t *rapid.T) {
		p := genLife(t, 8, 1, 3, 3, 9)
		l := newLife(t, p, false)
		defer l.end()
		next := uint64(0)
		for r := rapid.IntRange(1, 4).Draw(t, "rounds"); r > 0; r-- {
			for i := rapid.IntRange(0, 2<<uint(p.TH())).Draw(t, "n"); i > 0 && next < p.Max(); i-- {
				sig, err := l.sk.Sign(nil)
				if err != nil {
					l.fatalf("Sign: %v", err)
				}
				same(t, fmt.Sprintf("signature %d after %v", next, l.hist), mustBytes(t, sig), l.k.Sign(next, nil))
				next++
				eval()
			}
			l.log("close at %d", next)
			if err := l.sk.Close(); err != nil {
				l.fatalf("Close: %v", err)
			}
			l.sk = nil
			c := l.b.(*memBackend).c
			var as []xmssmt.SubTreeAddress
			for a := range c.cache {
				as = append(as, a)
			}
			kind := rapid.IntRange(0, 4).Draw(t, "kind")
			if kind < 2 || len(as) < 1 {
				l.b.loseCache(t)
			} else {
				// in a fixed order, for reproducibility
				for i := range as {
					for j := i; j > 0 && (as[j].Layer < as[j-1].Layer || as[j].Layer == as[j-1].Layer && as[j].Tree < as[j-1].Tree); j-- {
						as[j], as[j-1] = as[j-1], as[j]
					}
				}
				x := as[rapid.IntRange(0, len(as)-1).Draw(t, "x")]
				y := as[rapid.IntRange(0, len(as)-1).Draw(t, "y")]
				switch kind {
				case 2:
					c.cache[x], c.cache[y] = c.cache[y], c.cache[x]
				case 3:
					delete(c.cache, x)
				case 4:
					// a subtree that does not belong there
					z := xmssmt.SubTreeAddress{Layer: uint32(rapid.IntRange(0, p.D).Draw(t, "layer")), Tree: uint64(rapid.IntRange(0, 9).Draw(t, "tree"))}
					if _, ok := c.cache[z]; !ok {
						c.cache[z] = append([]byte(nil), c.cache[x]...)
					}
				}
			}
			l.log("damage %d", kind)
			sk, pk, lost, err := l.b.open()
			if err != nil {
				l.fatalf("the key can not be opened: %v", err)
			}
			l.sk = sk
			if pb := mustBytes(t, pk); string(pb) != string(l.k.PK()) {
				l.fatalf("the public key is different")
			}
			if uint64(sk.SeqNo()) != next || lost != 0 {
				l.fatalf("the next index is %d (%d lost), want %d", sk.SeqNo(), lost, next)
			}
		}
		for i := 0; i < 1<<uint(p.TH()) && next < p.Max(); i++ {
			sig, err := l.sk.Sign(nil)
			if err != nil {
				l.fatalf("Sign: %v", err)
			}
			same(t, fmt.Sprintf("signature %d after %v", next, l.hist), mustBytes(t, sig), l.k.Sign(next, nil))
			next++
			eval()
		}
		nontrivial(fmt.Sprintf("C11 memory %v %v", p, l.hist))
	})
}

// Subtrees in the places of others of which the addresses differ in little.
func TestC11_Addresses(t *testing.T) {
	check(t, 1600, 20000, func(t *rapid.T) {
		p := genTall(t, 6, 1, 3, 3, 12)
		k := genKey(t, p)
		start := genIndex(t, p)
		c := memCtrFor(k, start)
		sk, _, _, err := xmssmt.LoadPrivateKeyFrom(c)
		if err != nil {
			t.Fatalf("load: %v", err)
		}
		at := start
		for i := rapid.IntRange(1, 2).Draw(t, "signs"); i > 0 && at < p.Max(); i-- {
			sig, err := sk.Sign(nil)
			if err != nil {
				t.Fatalf("Sign: %v", err)
			}
			same(t, "signature", mustBytes(t, sig), k.Sign(at, nil))
			at++
		}
		if err := sk.Close(); err != nil {
			t.Fatalf("Close: %v", err)
		}
		last := at - 1
		path := func(i uint64) (r []xmssmt.SubTreeAddress) {
			for layer := 0; layer < p.D; layer++ {
				sh := uint((layer + 1) * p.TH())
				r = append(r, xmssmt.SubTreeAddress{Layer: uint32(layer), Tree: i >> sh})
			}
			return
		}
		c = c.reopened()
		old := map[xmssmt.SubTreeAddress][]byte{}
		for a, b := range c.cache {
			old[a] = append([]byte(nil), b...)
		}
		what := ""
		to := last
		put := func(a, from xmssmt.SubTreeAddress) {
			if b, ok := old[from]; ok {
				c.cache[a] = append([]byte(nil), b...)
			}
		}
		switch pick(t, "kind", "bit", 4, "layers", 2, "random", 1) {
		case "bit": // the same path elsewhere
			to ^= 1 << uint(rapid.IntRange(0, p.H-1).Draw(t, "bit"))
			if rapid.IntRange(0, 3).Draw(t, "two") == 0 {
				to ^= 1 << uint(rapid.IntRange(0, p.H-1).Draw(t, "bit2"))
			}
			from := path(last)
			for i, a := range path(to) {
				if rapid.IntRange(0, 4).Draw(t, "moved") > 0 {
					put(a, from[i])
				}
			}
			what = "bit"
		case "layers": // in other layers
			from := path(last)
			by := rapid.IntRange(1, p.D).Draw(t, "by")
			for i, a := range path(to) {
				put(a, from[(i+by)%p.D])
			}
			what = fmt.Sprintf("by %d layers", by)
		case "random":
			to = genIndex(t, p)
			from := path(last)
			for _, a := range path(to) {
				put(a, from[rapid.IntRange(0, p.D-1).Draw(t, "from")])
			}
			what = "random"
		}
		if to >= p.Max() {
			to = p.Max() - 1
		}
		c.seqNo, c.lost = to, 0
		h := fmt.Sprintf("%v: subtrees of the path of %d at that of %d (%s)", p, last, to, what)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(c)
		if err != nil {
			t.Fatalf("%s: load: %v", h, err)
		}
		if pb := mustBytes(t, pk); string(pb) != string(k.PK()) {
			t.Fatalf("%s: the public key is different", h)
		}
		for i := 0; i < 2 && to < p.Max(); i++ {
			sig, err := sk.Sign(nil)
			if err != nil {
				t.Fatalf("%s: Sign: %v", h, err)
			}
			same(t, h, mustBytes(t, sig), k.Sign(to, nil))
			to++
			eval()
		}
		if err := sk.Close(); err != nil {
			t.Fatalf("%s: Close: %v", h, err)
		}
		label("addresses: %s", what[:3])
		nontrivial("C11 " + h)
	})
}

// A damaged cache, and calls at once that come upon it.
func TestC11_AtOnce(t *testing.T) {
	q, th := 1600, 30000
	if raceBuild {
		q, th = 200, 3000
	}
	check(t, q, th, func(t *rapid.T) {
		p := genLife(t, 8, 1, 3, 4, 12)
		l := newLife(t, p, false)
		defer l.end()
		c := l.b.(*memBackend).c
		next := uint64(0)
		if rapid.Bool().Draw(t, "somewhere") {
			next = genIndex(t, p)
			l.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(next))
		}
		for r := rapid.IntRange(1, 4).Draw(t, "rounds"); r > 0 && next < p.Max(); r-- {
			// so that there is what it will use
			sig, err := l.sk.Sign(nil)
			if err != nil {
				l.fatalf("Sign at %d: %v", next, err)
			}
			same(t, fmt.Sprintf("signature %d", next), mustBytes(t, sig), l.k.Sign(next, nil))
			next++
			if err := l.sk.Close(); err != nil {
				l.fatalf("Close: %v", err)
			}
			l.sk = nil
			c = l.b.(*memBackend).c
			var what []string
			for layer := 0; layer < p.D; layer++ {
				a := xmssmt.SubTreeAddress{Layer: uint32(layer), Tree: next >> uint((layer+1)*p.TH())}
				buf := c.cache[a]
				if len(buf) == 0 || rapid.IntRange(0, 2).Draw(t, "intact") == 0 {
					continue
				}
				if rapid.IntRange(0, 7).Draw(t, "missing") == 0 {
					delete(c.cache, a)
					what = append(what, fmt.Sprintf("%v missing", a))
					continue
				}
				// nodes all over, or one
				step := rapid.SampledFrom([]int{1, p.N, len(buf)}).Draw(t, "step")
				for i := rapid.IntRange(0, len(buf)-1).Draw(t, "at"); i >= 0; i -= step {
					buf[i] ^= 0x40
				}
				what = append(what, fmt.Sprintf("%v altered", a))
			}
			l.log("damage at %d: %v", next, what)
			sk, pk, lost, err := l.b.open()
			if err != nil {
				l.fatalf("the key can not be opened: %v", err)
			}
			l.sk = sk
			if pb := mustBytes(t, pk); string(pb) != string(l.k.PK()) {
				l.fatalf("the public key is different")
			}
			if uint64(sk.SeqNo()) != next || lost != 0 {
				l.fatalf("the next index is %d (%d lost), want %d", sk.SeqNo(), lost, next)
			}
			c = l.b.(*memBackend).c
			n := rapid.IntRange(2, 6).Draw(t, "goroutines")
			per := rapid.IntRange(1, 3).Draw(t, "each")
			borrow := rapid.IntRange(0, 2).Draw(t, "borrow") > 0
			if borrow && uint64(n*per) <= p.Max()-next {
				// not one after another, for the storage
				if err := sk.BorrowExactly(uint32(n * per)); err != nil {
					l.fatalf("borrow: %v", err)
				}
			}
			if rapid.IntRange(0, 4).Draw(t, "precompute") == 0 {
				sk.EnableSubTreePrecomputation()
			}
			j := newJitter(t)
			c.settle()
			c.hook = func(string) { j.wait() }
			theLogger.j.Store(j)
			sigs := make([][]*xmssmt.Signature, n)
			errs := make([]error, n)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := 0; g < n; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					<-start
					errs[g] = protect(func() {
						for i := 0; i < per; i++ {
							sig, err := sk.Sign([]byte{byte(g)})
							if err != nil {
								if uint64(sk.SeqNo()) < p.Max() {
									panic(err)
								}
								return
							}
							sigs[g] = append(sigs[g], sig)
						}
					})
				}(g)
			}
			close(start)
			wg.Wait()
			c.settle()
			theLogger.j.Store(nil)
			c.hook = nil
			for g := range sigs {
				if errs[g] != nil {
					l.fatalf("Sign: %v", errs[g])
				}
				for _, sig := range sigs[g] {
					idx := uint64(sig.SeqNo())
					same(t, fmt.Sprintf("signature %d, one of %d at once after %v", idx, n, l.hist), mustBytes(t, sig), l.k.Sign(idx, []byte{byte(g)}))
					next = max(next, idx+1)
					eval()
				}
			}
			if len(what) > 0 {
				nontrivial(fmt.Sprintf("C11 at once %v %v %d", p, l.hist, n))
				label("damage met at once")
			}
		}
	})
}
