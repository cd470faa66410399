package props

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C27: creating a key over an old one replaces it completely or not at all.

// genOther draws another key: of the same or of other parameters, possibly
// sharing seeds with the first.
func genOther(t *rapid.T, p P, k *ref.Key) (P, *ref.Key) {
	q := p
	switch pick(t, "params", "same", 4, "prf", 1, "func", 1, "height", 2, "layers", 2, "w", 1, "any", 1) {
	case "prf":
		if p.N == 16 || p.N == 32 {
			q.NIST = !q.NIST
		}
	case "func":
		q.Func = (q.Func + 1) % 3
		if q.N == 64 {
			q.Func = p.Func
		}
	case "height":
		if q.TH() > 1 {
			q.H = (q.TH() - 1) * q.D
		} else {
			q.H = 2 * q.D
		}
	case "layers":
		th := q.TH()
		q.D = q.D%4 + 1
		q.H = th * q.D
	case "w":
		q.W = map[int]int{4: 16, 16: 4, 256: 16}[q.W]
	case "any":
		q = genLife(t, 8, 1, 3, 2, 10)
	}
	k2 := genKey(t, q)
	if q.N == p.N {
		m := rapid.IntRange(0, 7).Draw(t, "sameSeeds")
		pub, sk, prf := k2.PubSeed, k2.SkSeed, k2.SkPrf
		if m&1 != 0 {
			pub = k.PubSeed
		}
		if m&2 != 0 {
			sk = k.SkSeed
		}
		if m&4 != 0 {
			prf = k.SkPrf
		}
		k2 = ref.NewKey(q, pub, sk, prf)
	}
	return q, k2
}

// A key is used, and then another one is created in its place.
func TestC27_Replace(t *testing.T) {
	check(t, 1920, 10000, func(t *rapid.T) {
		p := genLife(t, 8, 1, 4, 2, 12)
		onDisk := rapid.IntRange(0, 3).Draw(t, "onDisk") > 0
		l := newLife(t, p, onDisk)
		defer func() { l.end() }()
		b, _ := l.b.(*fsBackend)
		for gen, gens := 1, rapid.IntRange(1, 3).Draw(t, "gens"); gen <= gens; gen++ {
			// use the key
			if rapid.IntRange(0, 2).Draw(t, "jump") == 0 {
				to := genIndex(t, l.p)
				if to > uint64(l.sk.SeqNo()) {
					l.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(to))
					l.log("jump to %d", to)
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "precompute") == 0 {
				l.sk.EnableSubTreePrecomputation()
			}
			for i := rapid.IntRange(0, 5).Draw(t, "uses"); i > 0 && uint64(l.sk.SeqNo()) < l.p.Max(); i-- {
				if rapid.IntRange(0, 3).Draw(t, "borrow") == 0 {
					if err := l.sk.BorrowExactly(uint32(rapid.IntRange(0, 4).Draw(t, "amount"))); err == nil {
						l.log("borrow")
					}
					continue
				}
				sig, err := l.sk.Sign(nil)
				if err != nil {
					l.fatalf("Sign: %v", err)
				}
				l.released(uint64(sig.SeqNo()), mustBytes(t, sig), nil)
				l.log("sign")
			}
			// end it
			q, k2 := genOther(t, l.p, l.k)
			if rapid.Bool().Draw(t, "orderly") {
				if err := l.sk.Close(); err != nil {
					l.fatalf("Close: %v", err)
				}
				l.log("close")
			} else {
				l.b.crash(l.sk)
				l.log("crash")
			}
			l.sk = nil
			if onDisk {
				switch pick(t, "junk", "none", 4, "tmp", 1, "cache", 1, "nocache", 1) {
				case "tmp": // left behind by a process that was killed
					os.WriteFile(b.path+".tmp", expand(uint64(gen), rapid.IntRange(0, 2000).Draw(t, "tmpLen")), 0600)
				case "cache":
					damageCache(t, b.path+".cache", true)
				case "nocache":
					os.Remove(b.path + ".cache")
				}
			}
			// the new one
			n := &life{t: t, p: q, k: k2, used: map[uint64]bool{}, b: l.b, hist: l.hist}
			n.log("create %v", q)
			var err xmssmt.Error
			n.noPanic("creation", func() {
				if onDisk {
					n.sk, n.pk, err = derive(newCtx(t, q, 1), k2, b.path)
				} else {
					c := l.b.(*memBackend).c.reopened()
					l.b.(*memBackend).c = c
					n.sk, n.pk, err = deriveInto(newCtx(t, q, 1), k2, c)
				}
			})
			if err != nil {
				n.fatalf("create: %v", err)
			}
			n.isNew("created")
			if rapid.Bool().Draw(t, "reopen") {
				if rapid.Bool().Draw(t, "orderly") {
					if err := n.sk.Close(); err != nil {
						n.fatalf("Close: %v", err)
					}
				} else {
					n.b.crash(n.sk)
				}
				sk, pk, lost, err := n.b.open()
				if err != nil {
					n.fatalf("open: %v", err)
				}
				if lost != 0 {
					n.fatalf("%d lost signatures are reported of a new key", lost)
				}
				n.sk, n.pk = sk, pk
				n.log("reopen")
				n.isNew("reopened")
			}
			at := map[uint64]bool{0: true, q.Max() - 1: true, 1 << uint(q.TH()) % q.Max(): true}
			for i := 0; i < 3; i++ {
				at[genIndex(t, q)] = true
			}
			for idx := uint64(0); idx < q.Max(); idx++ {
				if idx == 40 {
					break
				}
				if at[idx] {
					n.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(idx))
					msg := []byte{byte(idx)}
					sig, err := n.sk.Sign(msg)
					if err != nil {
						n.fatalf("Sign at %d: %v", idx, err)
					}
					same(t, fmt.Sprintf("signature %d of the new key, after %v", idx, n.hist), mustBytes(t, sig), k2.Sign(idx, msg))
					n.released(idx, mustBytes(t, sig), msg)
					n.log("sign %d", idx)
				}
			}
			nontrivial(fmt.Sprintf("C27 disk=%v %v", onDisk, n.hist))
			label("replaced, same parameters: %v", p == q)
			l = n
		}
	})
}

// isNew checks that the key is in the state of one just created.
func (n *life) isNew(what string) {
	n.t.Helper()
	same(n.t, "public key, "+what, mustBytes(n.t, n.pk), n.k.PK())
	same(n.t, "public key of the private key, "+what, mustBytes(n.t, n.sk.PublicKey()), n.k.PK())
	if s, b := n.sk.SeqNo(), n.sk.BorrowedSeqNos(); s != 0 || b != 0 {
		n.fatalf("%s: the new key is at index %d with %d reserved", what, s, b)
	}
	if u := n.sk.UnretiredSeqNos(); u != 0 {
		n.fatalf("%s: the new key has %d unretired indices", what, u)
	}
	if seq, bor, err := n.b.stored(); err != nil || seq != 0 || bor != 0 {
		n.fatalf("%s: stored are index %d with %d reserved (%v)", what, seq, bor, err)
	}
	if b, ok := n.b.(*fsBackend); ok {
		got, err := os.ReadFile(b.path)
		if err != nil {
			n.fatalf("%s: %v", what, err)
		}
		same(n.t, "key file, "+what, got, append(keyHeader(lib(n.p), 0, 0), n.k.SkBytes()...))
	}
	if c := n.sk.CachedSubTrees(); c > n.p.D {
		n.fatalf("%s: the new key has %d cached subtrees", what, c)
	}
	for _, a := range listTrees(n.t, n) {
		if a.Tree != 0 || int(a.Layer) >= n.p.D {
			n.fatalf("%s: the new key has subtree %v in its cache", what, a)
		}
	}
	eval()
}

// judge opens what is left after replacing the key of old by that of new has
// been interrupted.
func judgeReplacement(t *rapid.T, path string, old, new *life, created bool, what string) {
	t.Helper()
	kf, err := readKeyFile(path)
	if err != nil {
		old.fatalf("%s: the key file: %v", what, err)
	}
	l := old
	which := "old"
	if string(kf.Sk) == string(new.k.SkBytes()) && kf.Params == new.p && (created || old.p != new.p || string(kf.Sk) != string(old.k.SkBytes()) || kf.SeqNo < old.next) {
		l, which = new, "new"
	}
	if created && which == "old" {
		old.fatalf("%s: the new key had been created, but the key file is that of the old one", what)
	}
	l.hist = append(l.hist, what)
	sk := l.restart(path, true, what)
	if sk == nil {
		return
	}
	label("%s key found", which)
	l.signSome(sk, rapid.IntRange(1, 5).Draw(t, "signs"), what+", "+which+" key")
	if err := sk.Close(); err != nil {
		l.fatalf("%s: Close: %v", what, err)
	}
	if sk := l.restart(path, true, what+", closed"); sk != nil {
		l.signSome(sk, 1, what+", closed, "+which+" key")
		sk.Close()
	}
}

// The process that creates the new key is killed.
func TestC27_Killed(t *testing.T) {
	strace := haveStrace()
	check(t, 600, 4000, func(t *rapid.T) {
		p := genLife(t, 2, 1, 4, 2, 9)
		k := genKey(t, p)
		q, k2 := genOther(t, p, k)
		root := tmpDir()
		defer rmDir(root)
		a := newCrashLife(t, p, k)
		base := filepath.Join(root, "base", "key")
		os.Mkdir(filepath.Dir(base), 0700)
		sk, _, err := derive(newCtx(t, p, 1), k, base)
		if err != nil {
			a.fatalf("create: %v", err)
		}
		a.log("create %v", p)
		for i := rapid.IntRange(0, 12).Draw(t, "signs"); i > 0; i-- {
			if i%4 == 0 {
				sk.BorrowExactly(2)
			}
			a.signSome(sk, 1, "before")
		}
		at := filepath.Join(root, "old")
		os.Mkdir(at, 0700)
		orderly := rapid.Bool().Draw(t, "orderly")
		if orderly {
			sk.Close()
		}
		copyKey(base, filepath.Join(at, "key"))
		if !orderly {
			sk.Close()
		}
		ops := append([]cmdT{deriveCmd("", k2)}, genOps(t, q, 3)...)
		a.log("closed=%v; %v: %s", orderly, q, opNames(ops))
		fresh := func(i int) (dir, path string) {
			dir = filepath.Join(root, fmt.Sprintf("r%d", i))
			os.MkdirAll(filepath.Join(dir, "k"), 0700)
			path = filepath.Join(dir, "k", "key")
			copyKey(filepath.Join(at, "key"), path)
			return
		}
		dir, path := fresh(0)
		var args []string
		if strace {
			args = []string{"-y", "-e", "trace=" + alterCalls}
		}
		step("C27 %v", a.hist)
		t0 := time.Now()
		full := runScript(dir, withPath(ops, path), args, 0)
		took := time.Since(t0)
		b := newCrashLife(t, q, k2)
		b.hist = a.hist
		if full.Exit != 0 || len(full.Replies) != len(ops) {
			a.fatalf("the process did not end as it should: exit %d, %d of %d replies: %s", full.Exit, len(full.Replies), len(ops), firstLines(full.Stderr, 20))
		}
		whole := b.fork()
		whole.absorb(withPath(ops, path), full.Replies, "without a kill")
		judgeReplacement(t, path, a.fork(), whole, true, "not killed")
		var calls []tracedCall
		if strace {
			calls = tracedCalls(full.Trace)
			// mostly what belongs to the creation
			n := 0
			for n < len(calls) && calls[n].what() != "write log" && calls[n].what() != "write /log" {
				n++
			}
			if n > 0 && rapid.IntRange(0, 3).Draw(t, "creation") > 0 {
				calls = calls[:n]
			}
		}
		nk := 8
		if thorough {
			nk = 40
		}
		for i := 1; i <= nk; i++ {
			dir, path := fresh(i)
			na, nb := a.fork(), b.fork()
			at := spread(t, "at")
			var r scriptRun
			what := ""
			if len(calls) > 0 && i%4 != 0 {
				r = runScript(dir, withPath(ops, path), killAt(choose(calls, at)), 0)
				what = "killed entering " + lastCall(r.Trace)
			} else {
				r = runScript(dir, withPath(ops, path), nil, 1+time.Duration(float64(took)*float64(at)/(1<<32)))
				what = "killed at a random moment"
			}
			if !r.Killed {
				if r.Exit != 0 {
					na.fatalf("the process ended with status %d: %s", r.Exit, firstLines(r.Stderr, 20))
				}
				what = "not killed"
			}
			label("%s", what)
			created := nb.absorb(withPath(ops, path), r.Replies, what)
			judgeReplacement(t, path, na, nb, created, fmt.Sprintf("%s after %d commands", what, len(r.Replies)))
			eval()
			if r.Killed {
				nontrivial(fmt.Sprintf("C27 %v %s after %d", a.hist, what, len(r.Replies)))
			}
		}
	})
}
