package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C34: keys do not influence each other.

// sideKey is one of several keys in the process, and what it should be like.
type sideKey struct {
	name string
	p    P
	k    *ref.Key
	ctx  *xmssmt.Context
	path string  // if it is on disk
	mem  *memCtr // otherwise
	sk   *xmssmt.PrivateKey
	pk   *xmssmt.PublicKey
	next uint64
	res  uint32
	byte bool // compare signatures byte for byte
	sigs []sideSig
}

type sideSig struct {
	sig *xmssmt.Signature
	b   []byte
	msg []byte
}

type sideOp struct {
	op  string
	n   int
	msg []byte
}

func (o sideOp) String() string {
	switch o.op {
	case "borrow", "check":
		return fmt.Sprintf("%s %d", o.op, o.n)
	}
	return o.op
}

func genSideOp(t *rapid.T) sideOp {
	return sideOp{pick(t, "op", "sign", 8, "borrow", 2, "reopen", 2, "fail", 1, "precompute", 1, "check", 3, "lose cache", 1, "text", 1),
		rapid.IntRange(0, 5).Draw(t, "n"), genShortMsg(t)}
}

func (s *sideKey) open() error {
	var lost uint32
	var err xmssmt.Error
	if s.path != "" {
		s.sk, s.pk, lost, err = xmssmt.LoadPrivateKey(s.path)
	} else {
		s.mem = s.mem.reopened()
		s.sk, s.pk, lost, err = xmssmt.LoadPrivateKeyFrom(s.mem)
	}
	if err != nil {
		s.sk = nil
		return fmt.Errorf("open: %v", err)
	}
	if lost != 0 {
		return fmt.Errorf("opened with %d lost indices", lost)
	}
	return s.state()
}

func (s *sideKey) close() error {
	err := s.sk.Close()
	s.sk, s.res = nil, 0
	if err != nil {
		return fmt.Errorf("Close: %v", err)
	}
	return nil
}

// state compares what the key says with what it should.
func (s *sideKey) state() error {
	b, e := s.pk.MarshalBinary()
	if e != nil || !bytes.Equal(b, s.k.PK()) {
		return fmt.Errorf("the public key is %x (%v) instead of %x", b, e, s.k.PK())
	}
	if b, e = s.sk.PublicKey().MarshalBinary(); e != nil || !bytes.Equal(b, s.k.PK()) {
		return fmt.Errorf("the public key is %x (%v) instead of %x", b, e, s.k.PK())
	}
	if n := uint64(s.sk.SeqNo()); n != s.next {
		return fmt.Errorf("the next index is %d instead of %d", n, s.next)
	}
	if n := s.sk.BorrowedSeqNos(); n != s.res {
		return fmt.Errorf("%d indices are reserved instead of %d", n, s.res)
	}
	if n := s.sk.UnretiredSeqNos(); n != 0 {
		return fmt.Errorf("%d indices are in use instead of none", n)
	}
	if x := s.sk.Context().Params(); x != lib(s.p) {
		return fmt.Errorf("the parameters are %v instead of %v", x, lib(s.p))
	}
	return nil
}

// use makes the key spend an index.
func (s *sideKey) use() {
	s.next++
	if s.res > 0 {
		s.res--
	}
}

// do performs an operation as if there were no other keys.
func (s *sideKey) do(o sideOp) error {
	left := s.p.Max() - s.next
	switch o.op {
	case "sign":
		sig, err := s.sk.Sign(o.msg)
		if left == 0 {
			if err == nil {
				return fmt.Errorf("Sign succeeded, although all indices are used")
			}
			break
		}
		if err != nil {
			return fmt.Errorf("Sign: %v", err)
		}
		b, e := sig.MarshalBinary()
		if e != nil {
			return e
		}
		if uint64(sig.SeqNo()) != s.next {
			return fmt.Errorf("Sign used index %d instead of %d", sig.SeqNo(), s.next)
		}
		if s.byte && !bytes.Equal(b, s.k.Sign(s.next, o.msg)) {
			return fmt.Errorf("the signature with index %d is not what it should be", s.next)
		}
		if ok, err := xmssmt.Verify(s.k.PK(), b, o.msg); !ok {
			return fmt.Errorf("the signature with index %d is refused: %v", s.next, err)
		}
		s.sigs = append(s.sigs, sideSig{sig, b, o.msg})
		s.use()
	case "fail":
		if _, err := s.sk.SignFrom(&oddReader{failAt: 0, err: os.ErrClosed}); err == nil {
			return fmt.Errorf("SignFrom succeeded although the source failed")
		}
		if left > 0 {
			s.use()
		}
	case "borrow":
		n := uint32(min(uint64(o.n), left))
		if err := s.sk.BorrowExactly(n); err != nil {
			return fmt.Errorf("BorrowExactly(%d): %v", n, err)
		}
		s.res = n
	case "reopen", "lose cache":
		if err := s.close(); err != nil {
			return err
		}
		if o.op == "lose cache" {
			if s.path != "" {
				os.Remove(s.path + ".cache")
			} else {
				s.mem.cache = nil
			}
		}
		return s.open()
	case "precompute":
		s.sk.EnableSubTreePrecomputation()
	case "check":
		if len(s.sigs) == 0 {
			break
		}
		x := s.sigs[o.n%len(s.sigs)]
		if ok, err := s.pk.Verify(x.sig, x.msg); !ok {
			return fmt.Errorf("the signature with index %d is refused: %v", x.sig.SeqNo(), err)
		}
		if ok, _ := s.pk.Verify(x.sig, append([]byte("x"), x.msg...)); ok {
			return fmt.Errorf("the signature with index %d is accepted for another message", x.sig.SeqNo())
		}
	case "text":
		b, e := s.pk.MarshalText()
		var pk xmssmt.PublicKey
		if e != nil {
			return e
		}
		if e := pk.UnmarshalText(b); e != nil {
			return e
		}
		s.pk = &pk
	}
	return s.state()
}

func TestC34_SideBySide(t *testing.T) {
	q, th := 1600, 24000
	if raceBuild {
		q, th = 240, 4000
	}
	check(t, q, th, func(t *rapid.T) {
		root := tmpDir()
		defer rmDir(root)
		var keys []*sideKey
		var hist []string
		log := func(f string, a ...interface{}) {
			hist = append(hist, fmt.Sprintf(f, a...))
			step("C34 %s", strings.Join(hist, "; "))
		}
		fatalf := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		defer func() {
			for _, s := range keys {
				if s.sk != nil {
					s.sk.Close()
				}
			}
		}()
		run := func(s *sideKey, f func() error) error {
			var err error
			if e := protect(func() { err = f() }); e != nil {
				err = e
			}
			if err != nil {
				return fmt.Errorf("%s (%v): %v", s.name, s.p, err)
			}
			return nil
		}
		related := false
		add := func() {
			s := &sideKey{name: fmt.Sprintf("key %d", len(keys)), byte: rapid.IntRange(0, 2).Draw(t, "byte") == 0}
			rel := "independent"
			if len(keys) > 0 {
				o := keys[rapid.IntRange(0, len(keys)-1).Draw(t, "of")]
				rel = pick(t, "related", "independent", 2, "same", 2, "same parameters", 2, "other skSeed", 2, "other pubSeed", 2, "other skPrf", 2,
					"same seeds", 2)
				pub, sd, prf := o.k.PubSeed, o.k.SkSeed, o.k.SkPrf
				s.p = o.p
				switch rel {
				case "same parameters":
					pub, sd, prf = genSeed(t, s.p.N, "pubSeed"), genSeed(t, s.p.N, "skSeed"), genSeed(t, s.p.N, "skPrf")
				case "other skSeed":
					sd = genSeed(t, s.p.N, "skSeed")
				case "other pubSeed":
					pub = genSeed(t, s.p.N, "pubSeed")
				case "other skPrf":
					prf = genSeed(t, s.p.N, "skPrf")
				case "same seeds":
					// only the parameters differ
					n := s.p.N
					s.p = genTall(t, 4, 1, 3, 2, 9)
					if s.p.N != n {
						s.p = o.p
						s.p.NIST = !s.p.NIST
					}
				case "independent":
					pub = nil
				}
				if pub != nil {
					s.k = ref.NewKey(s.p, pub, sd, prf)
					if s.p == o.p && rapid.Bool().Draw(t, "shareContext") {
						s.ctx = o.ctx
						rel += ", context shared"
					}
				}
				related = true
			}
			if s.k == nil {
				s.p = genTall(t, 4, 1, 3, 2, 9)
				s.k = genKey(t, s.p)
			}
			if s.ctx == nil {
				s.ctx = newCtx(t, s.p, rapid.IntRange(0, 2).Draw(t, "threads"))
			}
			if rapid.Bool().Draw(t, "onDisk") {
				// the names have something in common
				d := filepath.Join(root, rapid.SampledFrom([]string{"", "a", "b", "a/b", "key"}).Draw(t, "dir"))
				if err := os.MkdirAll(d, 0700); err != nil {
					infra("%v", err)
				}
				base := rapid.SampledFrom([]string{"key", "key1", "ke", "Key", "key.1", " key", "kéy"}).Draw(t, "base")
				if d == root && base == "key" {
					base = "key0"
				}
				s.path = filepath.Join(d, base)
				for _, o := range keys {
					if o.path == s.path {
						s.path += fmt.Sprint(len(keys) * 11)
					}
				}
				if _, err := os.Stat(s.path); err == nil {
					infra("%s exists", s.path)
				}
				s.name += " in " + s.path[len(root):]
			}
			log("%s: %v %s", s.name, s.p, rel)
			keys = append(keys, s)
			if err := run(s, func() error {
				var err xmssmt.Error
				if s.path != "" {
					s.sk, s.pk, err = derive(s.ctx, s.k, s.path)
				} else {
					s.mem = newMemCtr()
					s.sk, s.pk, err = deriveInto(s.ctx, s.k, s.mem)
				}
				if err != nil {
					return err
				}
				if rapid.IntRange(0, 2).Draw(t, "jump") == 0 {
					s.next = genIndex(t, s.p)
					s.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(s.next))
					if err := s.do(sideOp{op: "sign"}); err != nil {
						return err
					}
				}
				return s.state()
			}); err != nil {
				fatalf("%v", err)
			}
		}
		for i := rapid.IntRange(2, 4).Draw(t, "keys"); i > 0; i-- {
			add()
		}
		crossed := false
		for i := rapid.IntRange(3, 16).Draw(t, "ops"); i > 0; i-- {
			switch pick(t, "what", "one", 8, "all", 2, "cross", 2, "stuck", 2, "new", 1) {
			case "one":
				s := keys[rapid.IntRange(0, len(keys)-1).Draw(t, "which")]
				o := genSideOp(t)
				log("%s: %v", s.name, o)
				if err := run(s, func() error { return s.do(o) }); err != nil {
					fatalf("%v", err)
				}
			case "all": // at the same time
				plans := make([][]sideOp, len(keys))
				for j := range plans {
					for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
						plans[j] = append(plans[j], genSideOp(t))
					}
				}
				log("all: %v", plans)
				errs := make([]error, len(keys))
				var wg sync.WaitGroup
				for j := range keys {
					wg.Add(1)
					go func(j int) {
						defer wg.Done()
						for _, o := range plans[j] {
							if errs[j] = run(keys[j], func() error { return keys[j].do(o) }); errs[j] != nil {
								return
							}
						}
					}(j)
				}
				wg.Wait()
				for _, e := range errs {
					if e != nil {
						fatalf("%v", e)
					}
				}
			case "cross": // a signature of one under the key of another
				a := keys[rapid.IntRange(0, len(keys)-1).Draw(t, "from")]
				b := keys[rapid.IntRange(0, len(keys)-1).Draw(t, "to")]
				if len(a.sigs) == 0 {
					continue
				}
				x := a.sigs[len(a.sigs)-1]
				want := a.p == b.p && bytes.Equal(a.k.PK(), b.k.PK())
				log("%s with %s", a.name, b.name)
				ok, err := b.pk.Verify(x.sig, x.msg)
				if ok != want {
					fatalf("the signature with index %d of %s under the public key of %s: %v (%v)", x.sig.SeqNo(), a.name, b.name, ok, err)
				}
				if !bytes.Equal(mustBytes(t, x.sig), x.b) {
					fatalf("the signature with index %d of %s has changed", x.sig.SeqNo(), a.name)
				}
				crossed = crossed || a != b
			case "stuck": // the storage of one does not answer; the others go on
				var s *sideKey
				for _, o := range keys {
					if o.mem != nil {
						s = o
					}
				}
				if s == nil {
					continue
				}
				gate, inside := make(chan struct{}), make(chan struct{})
				var once sync.Once
				s.mem.settle()
				s.mem.hook = func(string) {
					once.Do(func() {
						close(inside)
						<-gate
					})
				}
				end := make(chan error, 1)
				log("the storage of %s is slow", s.name)
				go func() { end <- run(s, func() error { return s.do(sideOp{op: "sign", msg: []byte("slow")}) }) }()
				var first error
				over := false
				select {
				case <-inside:
				case first = <-end:
					over = true
				}
				m := s.mem
				var others []*sideKey
				for _, o := range keys {
					if o != s {
						others = append(others, o)
					}
				}
				o := others[rapid.IntRange(0, len(others)-1).Draw(t, "which")]
				op := genSideOp(t)
				log("%s: %v", o.name, op)
				res := make(chan error, 1)
				go func() { res <- run(o, func() error { return o.do(op) }) }()
				tm := time.NewTimer(patience())
				var err error
				select {
				case err = <-res:
				case <-tm.C:
					impatient.Store(true)
					close(gate)
					<-res
					if !over {
						<-end
					}
					fatalf("%s: %v does not return while the storage of %s does not answer", o.name, op, s.name)
				}
				tm.Stop()
				close(gate)
				if !over {
					first = <-end
				}
				m.settle()
				m.hook = nil
				if err != nil {
					fatalf("%v", err)
				}
				if first != nil {
					fatalf("%v", first)
				}
			case "new":
				if len(keys) < 5 {
					add()
				}
			}
			eval()
		}
		for _, s := range keys {
			if err := run(s, s.state); err != nil {
				fatalf("in the end: %v", err)
			}
			if err := run(s, s.close); err != nil {
				fatalf("in the end: %v", err)
			}
			// nobody has anything to do with it any more
			if err := run(s, s.open); err != nil {
				fatalf("in the end: %v", err)
			}
		}
		if related || crossed {
			nontrivial("C34 " + strings.Join(hist, "; "))
			label("%d keys", len(keys))
		}
	})
}
