package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C07: failures of the storage or of the message source.

// noPanic runs f; a panic in it is a violation.
func (l *life) noPanic(what string, f func()) {
	l.t.Helper()
	if err := protect(f); err != nil {
		l.fatalf("%s: %v", what, err)
	}
}

type faultPlan struct {
	op     string // "" for any
	before bool
	nth    int // calls that are let through
	many   int // calls that fail then
	hits   int
}

func genPlan(t *rapid.T) *faultPlan {
	return &faultPlan{
		op: rapid.SampledFrom([]string{"", "GetSubTree", "SetSeqNo", "BorrowSeqNos", "GetSeqNo", "DropSubTree", "Close",
			"Reset", "ResetCache", "ListSubTrees", "GetPrivateKey", "GetSubTree", ""}).Draw(t, "failing"),
		before: rapid.Bool().Draw(t, "beforeEffect"),
		nth:    rapid.IntRange(0, 6).Draw(t, "nth"),
		many:   rapid.SampledFrom([]int{1, 1, 2, 5, 1000}).Draw(t, "many"),
	}
}

func (f *faultPlan) String() string {
	return fmt.Sprintf("{%s before=%v nth=%d many=%d}", f.op, f.before, f.nth, f.many)
}

func (f *faultPlan) fault(op string, before bool) xmssmt.Error {
	if f.op != "" && f.op != op || before != f.before {
		return nil
	}
	if f.nth > 0 {
		f.nth--
		return nil
	}
	if f.hits >= f.many {
		return nil
	}
	f.hits++
	return &ctrErr{"injected failure of " + op}
}

func TestC07_Histories(t *testing.T) {
	check(t, 1600, 30000, func(t *rapid.T) {
		p := genTall(t, 8, 1, 3, 3, 9)
		l := newLife(t, p, false)
		defer l.end()
		b := l.b.(*memBackend)
		hits, clean := 0, 0
		sign := func(armed bool) bool {
			msg := genShortMsg(t)
			var sig *xmssmt.Signature
			var err xmssmt.Error
			failing := armed && rapid.IntRange(0, 9).Draw(t, "badSource") == 0
			l.noPanic("Sign", func() {
				if failing {
					sig, err = l.sk.SignFrom(failingReader(t))
				} else {
					sig, err = l.sk.Sign(msg)
				}
			})
			l.log("sign: %v", err)
			if err == nil {
				if failing {
					l.fatalf("SignFrom succeeded although the source failed")
				}
				// recorded before it is released?
				if b.c.seqNo <= uint64(sig.SeqNo()) {
					l.fatalf("a signature with index %d is released, the stored next index is %d", sig.SeqNo(), b.c.seqNo)
				}
				l.released(uint64(sig.SeqNo()), mustBytes(t, sig), msg)
				return true
			}
			return false
		}
		reopen := func() {
			// what an application does when its key does not work any more
			l.log("reopen")
			l.noPanic("Close", func() {
				if err := l.sk.Close(); err != nil {
					l.log("Close: %v", err)
				}
			})
			c := b.c.reopened()
			b.c = c
			var sk *xmssmt.PrivateKey
			var pk *xmssmt.PublicKey
			var err xmssmt.Error
			l.noPanic("LoadPrivateKeyFrom", func() { sk, pk, _, err = xmssmt.LoadPrivateKeyFrom(b.c) })
			if err != nil {
				l.fatalf("after the failures, the key can not be opened: %v", err)
			}
			same(t, "public key", mustBytes(t, pk), l.k.PK())
			l.sk = sk
		}
		n := rapid.IntRange(3, 8).Draw(t, "rounds")
		for i := 0; i < n; i++ {
			plan := genPlan(t)
			l.log("arm %v", plan)
			b.c.fault = plan.fault
			m := rapid.IntRange(1, 8).Draw(t, "ops")
			for j := 0; j < m; j++ {
				switch pick(t, "op", "sign", 8, "borrow", 3, "load", 1, "precompute", 1) {
				case "sign":
					sign(true)
				case "borrow":
					a := uint32(rapid.IntRange(0, 5).Draw(t, "amount"))
					l.noPanic("BorrowExactly", func() { l.log("borrow %d: %v", a, l.sk.BorrowExactly(a)) })
				case "precompute":
					l.noPanic("EnableSubTreePrecomputation", func() { l.sk.EnableSubTreePrecomputation() })
					l.log("precompute")
				case "load":
					// close and load, either of which may fail
					l.noPanic("Close", func() { l.log("close: %v", l.sk.Close()) })
					c := b.c.reopened()
					c.fault = plan.fault
					var sk *xmssmt.PrivateKey
					var err xmssmt.Error
					l.noPanic("LoadPrivateKeyFrom", func() { sk, _, _, err = xmssmt.LoadPrivateKeyFrom(c) })
					l.log("load: %v", err)
					b.c = c
					if err != nil {
						c2 := c.reopened()
						b.c = c2
						l.noPanic("LoadPrivateKeyFrom", func() { sk, _, _, err = xmssmt.LoadPrivateKeyFrom(c2) })
						if err != nil {
							l.fatalf("after the failure the key can not be opened: %v", err)
						}
						plan = &faultPlan{op: "none"}
					}
					l.sk = sk
				}
				l.covered("after a failure")
				eval()
			}
			b.c.fault = nil
			hits += plan.hits
			// the failure is over
			if uint64(l.sk.SeqNo()) >= p.Max() {
				break
			}
			l.log("failure over")
			ok := sign(false)
			if !ok {
				reopen()
				if uint64(l.sk.SeqNo()) >= p.Max() {
					break
				}
				if !sign(false) {
					l.fatalf("after the failure is over, the reopened key does not sign")
				}
			} else {
				clean++
			}
			// and the following ones, into the next subtree
			for j := 0; j < 1<<uint(p.TH()) && uint64(l.sk.SeqNo()) < p.Max(); j++ {
				if rapid.IntRange(0, 3).Draw(t, "enough") == 0 {
					break
				}
				if !sign(false) {
					reopen()
					if uint64(l.sk.SeqNo()) < p.Max() && !sign(false) {
						l.fatalf("after the failure is over, the reopened key does not sign")
					}
				}
			}
		}
		b.c.checkOverlap(t)
		if hits > 0 {
			nontrivial(fmt.Sprintf("C07 %v %v", p, l.hist))
			label("histories with failures")
		}
		if clean > 0 {
			label("went on without reopening")
		}
	})
}

// Creation fails at one of its calls.
func TestC07_Create(t *testing.T) {
	check(t, 400, 6000, func(t *rapid.T) {
		p := genParams(t, 4, 3, 3)
		k := genKey(t, p)
		plan := genPlan(t)
		c := newMemCtr()
		c.fault = plan.fault
		step("create %v with %v", p, plan)
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		var err xmssmt.Error
		ctx := newCtx(t, p, 1)
		if e := protect(func() { sk, pk, err = deriveInto(ctx, k, c) }); e != nil {
			t.Fatalf("DeriveInto with %v: %v", plan, e)
		}
		c.fault = nil
		if err != nil {
			label("creation failed")
			if plan.hits == 0 {
				t.Fatalf("DeriveInto: %v", err)
			}
			if sk, pk, err = deriveInto(ctx, k, c); err != nil {
				t.Fatalf("DeriveInto after a failed one: %v", err)
			}
		} else if sk == nil || pk == nil {
			t.Fatalf("no error, no key")
		}
		same(t, "public key", mustBytes(t, pk), k.PK())
		for i := 0; i < 3 && uint64(i) < p.Max(); i++ {
			var sig *xmssmt.Signature
			if e := protect(func() { sig, err = sk.Sign([]byte("x")) }); e != nil || err != nil {
				t.Fatalf("Sign after creation with %v: %v %v", plan, e, err)
			}
			if sig.SeqNo() != xmssmt.SignatureSeqNo(i) {
				t.Fatalf("signature %d has index %d", i, sig.SeqNo())
			}
			same(t, "signature", mustBytes(t, sig), k.Sign(uint64(i), []byte("x")))
		}
		eval()
		if plan.hits > 0 {
			nontrivial(fmt.Sprintf("C07 create %v %v", p, plan))
		}
	})
}

// A key on disk of which the key file can not be written for a while.
func TestC07_Disk(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	defer signal.Reset(syscall.SIGXFSZ)
	check(t, 800, 9000, func(t *rapid.T) {
		p := genLife(t, 8, 1, 3, 3, 8)
		l := newLife(t, p, true)
		defer l.end()
		b := l.b.(*fsBackend)
		blocked := false
		// what else may fail until the key is opened again
		dirty := false
		kind, room := "", 0
		var lift func()
		apply := func() {
			switch kind {
			case "tmp": // the temporary file can not be opened
				os.Remove(b.path + ".tmp") // left by an earlier failure
				if err := os.Mkdir(b.path+".tmp", 0700); err != nil {
					infra("mkdir: %v", err)
				}
				if err := os.WriteFile(b.path+".tmp/x", nil, 0600); err != nil {
					infra("%v", err)
				}
				lift = func() {
					os.Remove(b.path + ".tmp/x")
					if err := os.Remove(b.path + ".tmp"); err != nil {
						infra("rmdir: %v", err)
					}
				}
			case "descriptors":
				lift = limit(rlimitNofile, lowestFreeFd()+uint64(room))
			case "space":
				lift = limit(rlimitFsize, uint64(room))
			}
		}
		block := func() {
			switch kind = pick(t, "blocks", "tmp", 1, "descriptors", 1, "space", 1); kind {
			case "descriptors":
				room = rapid.IntRange(0, 2).Draw(t, "descriptorsLeft")
			case "space":
				room = rapid.SampledFrom([]int{0, 10, 40, 100, 250, 4096, 5000, 8192, 9000, 12288, 16384, 30000}).Draw(t, "space")
				dirty = true
			}
			apply()
			blocked = true
			l.log("block %s %d", kind, room)
		}
		unblock := func() {
			lift()
			blocked = false
			l.log("unblock")
		}
		defer func() {
			if blocked {
				lift()
			}
		}()
		fails := 0
		n := rapid.IntRange(10, 30).Draw(t, "n")
		for i := 0; i < n; i++ {
			switch pick(t, "op", "sign", 8, "borrow", 3, "block", 3, "reopen", 2, "crash", 1) {
			case "sign":
				msg := genShortMsg(t)
				var sig *xmssmt.Signature
				var err xmssmt.Error
				l.noPanic("Sign", func() { sig, err = l.sk.Sign(msg) })
				l.log("sign: %v", err != nil)
				if err == nil {
					l.released(uint64(sig.SeqNo()), mustBytes(t, sig), msg)
				} else {
					fails++
					if !blocked && !dirty && uint64(l.sk.SeqNo()) < p.Max() {
						l.fatalf("Sign: %v", err)
					}
				}
			case "borrow":
				a := uint32(rapid.IntRange(0, 5).Draw(t, "amount"))
				l.noPanic("BorrowExactly", func() {
					err := l.sk.BorrowExactly(a)
					l.log("borrow %d: %v", a, err)
				})
			case "block":
				if blocked {
					unblock()
				} else {
					block()
				}
			case "reopen", "crash":
				if i%2 == 0 {
					var err xmssmt.Error
					l.noPanic("Close", func() { err = l.sk.Close() })
					l.log("close: %v", err != nil)
					if err != nil {
						if !blocked && !dirty {
							l.fatalf("Close: %v", err)
						}
						fails++
						if blocked {
							unblock()
						}
						if err = l.sk.Close(); err != nil && !dirty {
							l.fatalf("after the failure is over, Close still fails: %v", err)
						}
					}
					if blocked {
						unblock()
					}
				} else {
					if blocked {
						unblock()
					}
					l.log("crash")
					b.crash(l.sk)
				}
				sk, pk, _, err := b.open()
				if err != nil {
					l.fatalf("open: %v", err)
				}
				same(t, "public key", mustBytes(t, pk), l.k.PK())
				l.sk, dirty = sk, false
			}
			if blocked && kind != "tmp" {
				lift()
			}
			l.covered("always")
			if blocked && kind != "tmp" {
				apply()
			}
			eval()
		}
		if blocked {
			unblock()
		}
		if dirty {
			l.noPanic("Close", func() { l.sk.Close() })
			l.log("close, open")
			sk, _, _, err := b.open()
			if err != nil {
				l.fatalf("open: %v", err)
			}
			l.sk = sk
		}
		if uint64(l.sk.SeqNo()) < p.Max() {
			sig, err := l.sk.Sign(nil)
			if err != nil {
				l.fatalf("after the failure is over: %v", err)
			}
			l.released(uint64(sig.SeqNo()), mustBytes(t, sig), nil)
		}
		if fails > 0 {
			nontrivial(fmt.Sprintf("C07 disk %v %v", p, l.hist))
			label("disk histories with failures")
		}
	})
}

// The message source fails, at any length, also one that returns data along
// with the error.
func TestC07_Source(t *testing.T) {
	check(t, 300, 5000, func(t *rapid.T) {
		p := genParams(t, 4, 3, 3)
		p.H, p.D = p.TH()*max(p.D, 2), max(p.D, 2)
		l := newLife(t, p, false)
		defer l.end()
		for i := 0; i < 4; i++ {
			msg := genMsg(t)
			at := rapid.IntRange(0, len(msg)).Draw(t, "failAt")
			sizes := []int{rapid.SampledFrom([]int{1, 7, 100, 5000}).Draw(t, "piece")}
			if len(msg) > 5000 {
				sizes[0] = 5000
			}
			r := &oddReader{data: msg, sizes: sizes, failAt: at, err: genErr(t), errWith: rapid.Bool().Draw(t, "errWith")}
			before := l.sk.SeqNo()
			if uint64(before) >= p.Max() {
				break
			}
			var sig *xmssmt.Signature
			var err xmssmt.Error
			l.noPanic("SignFrom", func() { sig, err = l.sk.SignFrom(r) })
			l.log("source of %d bytes fails at %d: %v", len(msg), at, err)
			if err == nil {
				l.fatalf("a signature is released although the source failed: %v", sig)
			}
			if uint64(l.sk.SeqNo()) >= p.Max() {
				break
			}
			l.noPanic("Sign", func() { sig, err = l.sk.SignFrom(bytes.NewReader(msg)) })
			if err != nil {
				l.fatalf("the next signature fails: %v", err)
			}
			l.released(uint64(sig.SeqNo()), mustBytes(t, sig), msg)
			if n := l.sk.UnretiredSeqNos(); n != 0 {
				l.fatalf("%d indices are still taken for being in use", n)
			}
			// verification from a failing source
			r2 := &oddReader{data: msg, sizes: sizes, failAt: at, err: r.err, errWith: r.errWith}
			var ok bool
			l.noPanic("VerifyFrom", func() { ok, err = l.pk.VerifyFrom(sig, r2) })
			if ok || err == nil {
				l.fatalf("VerifyFrom a failing source says %v %v", ok, err)
			}
			nontrivial(fmt.Sprintf("C07 source %v %d of %d", p, at, len(msg)))
		}
	})
}

// A system call fails in a process that uses the key.
func TestC07_System(t *testing.T) {
	if !haveStrace() {
		label("no strace: system calls are not made to fail")
		return
	}
	check(t, 1200, 20000, func(t *rapid.T) {
		p := genLife(t, 2, 1, 4, 2, 9)
		k := genKey(t, p)
		root := tmpDir()
		defer rmDir(root)
		os.Mkdir(filepath.Join(root, "k"), 0700)
		path := filepath.Join(root, "k", "key")
		l := newCrashLife(t, p, k)
		// sometimes there is a key already
		exists := rapid.Bool().Draw(t, "exists")
		first := deriveCmd("", k)
		if exists {
			sk, _, err := derive(newCtx(t, p, 1), k, path)
			if err != nil {
				l.fatalf("create: %v", err)
			}
			l.signSome(sk, rapid.IntRange(0, 4).Draw(t, "before"), "before")
			if rapid.Bool().Draw(t, "orderly") {
				sk.Close()
			} else {
				os.Mkdir(filepath.Join(root, "x"), 0700)
				copyKey(path, filepath.Join(root, "x", "key"))
				sk.Close()
				copyKey(filepath.Join(root, "x", "key"), path)
			}
			first = cmdT{Op: "load"}
		}
		ops := append([]cmdT{first}, genOps(t, p, 8)...)
		var clean []cmdT
		for _, o := range ops {
			if o.Op == "borrow" && o.N > 3 {
				o.N = 3
			}
			clean = append(clean, o)
		}
		ops = clean
		mark := len(ops)
		// once it is over
		for _, o := range []string{"close", "close", "load", "load", "sign", "close", "close", "load", "load", "sign"} {
			ops = append(ops, cmdT{Op: o})
		}
		ops = withPath(ops, path)
		type target struct{ file, call string }
		tg := rapid.SampledFrom([]target{
			{".tmp", "openat"}, {".tmp", "write"}, {".tmp", "fsync"}, {".tmp", "close"}, {".tmp", "renameat"},
			{"", "openat"}, {"", "read"}, {"", "close"}, {"", "newfstatat"},
			{"dir", "openat"}, {"dir", "fsync"}, {"dir", "close"},
			{".cache", "openat"}, {".cache", "mmap"}, {".cache", "mmap"}, {".cache", "ftruncate"}, {".cache", "ftruncate"}, {".cache", "write"},
			{".cache", "read"}, {".cache", "lseek"}, {".cache", "close"}, {".cache", "fstat"},
			{".lock", "linkat"}, {".lock", "unlinkat"}, {".lock", "openat"}, {".lock", "read"}, {".lock", "newfstatat"},
			{"any", "unlinkat"}, {"any", "munmap"}, {"any", "linkat"}, {"any", "write"},
		}).Draw(t, "target")
		errno := rapid.SampledFrom([]string{"EIO", "ENOSPC", "EACCES", "EMFILE", "ENOMEM", "EROFS"}).Draw(t, "errno")
		when := fmt.Sprint(rapid.IntRange(1, 5).Draw(t, "when"))
		if tg.file == "any" {
			when = fmt.Sprint(rapid.IntRange(1, 20).Draw(t, "whenAny"))
		}
		once := rapid.IntRange(0, 2).Draw(t, "forever") > 0
		if !once {
			when += "+"
		}
		args := []string{"-y"}
		switch tg.file {
		case "any":
			if tg.call == "munmap" || tg.call == "write" {
				args = append(args, "-P", path+".cache", "-P", path, "-P", path+".tmp", "-P", path+".lock")
			}
		case "dir":
			args = append(args, "-P", filepath.Dir(path))
		default:
			args = append(args, "-P", path+tg.file)
		}
		args = append(args, "-e", "trace=openat,read,write,fsync,close,renameat,linkat,unlinkat,newfstatat,fstat,ftruncate,lseek,mmap,munmap",
			"-e", fmt.Sprintf("inject=%s:error=%s:when=%s", tg.call, errno, when))
		l.log("%s; %s of key%s fails with %s, when=%s", opNames(ops), tg.call, tg.file, errno, when)
		r := runScript(root, ops, args, 0)
		tr, _ := os.ReadFile(r.Trace)
		struck := strings.Count(string(tr), "(INJECTED)")
		if r.Exit != 0 || r.Killed {
			if strings.Contains(r.Stderr, "VERIF-INFRA") || len(r.Replies) == 0 && !strings.Contains(string(tr), path) {
				label("the process did not start")
				return
			}
			l.fatalf("the process ended with status %d: %s", r.Exit, firstLines(r.Stderr, 60))
		}
		created := exists
		lost := tg.call == "write" && tg.file == "any" // replies may be missing
		j := 0
		for i, rep := range r.Replies {
			for lost && j < len(ops) && ops[j].Op != rep.Op {
				j++
			}
			if j >= len(ops) || ops[j].Op != rep.Op {
				l.fatalf("harness: reply %d is %q", i, rep.Op)
			}
			if strings.HasPrefix(rep.Err, "PANIC") {
				l.fatalf("command %d, %s: %s", j, rep.Op, rep.Err)
			}
			switch rep.Op {
			case "derive", "load":
				if rep.OK {
					created = true
					if rep.PK != hex.EncodeToString(k.PK()) {
						l.fatalf("command %d, %s: another public key", j, rep.Op)
					}
					if rep.SeqNo < l.next {
						l.fatalf("command %d, %s: next index %d, but index %d has been used", j, rep.Op, rep.SeqNo, l.next-1)
					}
				}
			case "sign":
				if rep.OK {
					l.released(rep.SeqNo, unhex(rep.Sig), unhex(ops[j].Msg))
				}
			}
			if !rep.OK {
				if struck == 0 && j < mark && rep.Op != "signfail" && rep.Op != "borrow" && !strings.Contains(rep.Err, "unused signatures") && created {
					l.fatalf("command %d, %s: %s, although nothing failed", j, rep.Op, rep.Err)
				}
			}
			j++
		}
		// A single failure is over: whenever it struck, one of the attempts to
		// close and to load came after it.
		if once && created && !lost && l.next < p.Max() {
			n := len(r.Replies)
			if s := r.Replies[n-1]; !s.OK && !r.Replies[n-6].OK && !strings.Contains(s.Err, "unused signatures") {
				l.fatalf("the failure is over, but signing still fails: %s (%q)", s.Err, errsOf(r.Replies))
			}
		}
		if struck > 0 {
			label("failing %s key%s", tg.call, tg.file)
			nontrivial(fmt.Sprintf("C07 system %v %v", p, l.hist))
		}
		eval()
		// another process
		sk := l.restart(path, created, "the process ended")
		if sk == nil {
			return
		}
		l.signSome(sk, 2, "after the process ended")
		if err := sk.Close(); err != nil {
			l.fatalf("Close: %v", err)
		}
	})
}

func errsOf(rs []repT) (out []string) {
	for _, r := range rs {
		if !r.OK {
			out = append(out, r.Op+": "+r.Err)
		}
	}
	return
}
