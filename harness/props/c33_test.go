package props

import (
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C33: nothing is left behind.

// holdings are the resources that the process has for files in a directory, and
// the goroutines of the library.
type holdings struct {
	fds   []string
	maps  []string
	stack string
}

// descriptors lists those open for something in dir.
func descriptors(dir string) (r []string) {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		infra("%v", err)
	}
	for _, e := range es {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil &&
			(to == dir || strings.HasPrefix(to, dir+"/") || strings.HasPrefix(to, dir+" ")) {
			r = append(r, strings.TrimPrefix(to, filepath.Dir(dir)+"/"))
		}
	}
	return
}

// mappings lists those of something in dir.
func mappings(dir string) (r []string) {
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		infra("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, dir+"/"); i >= 0 {
			r = append(r, l[i+len(filepath.Dir(dir))+1:])
		}
	}
	return
}

// libraryStacks returns the stacks of the goroutines that are inside the library
// or were started by it.
func libraryStacks() (r []string) {
	stackMu.Lock()
	defer stackMu.Unlock()
	n := runtime.Stack(stackBuf, true)
	for _, g := range strings.Split(string(stackBuf[:n]), "\n\n") {
		if strings.Contains(g, libPrefix) {
			r = append(r, g)
		}
	}
	return
}

// nothingHeld checks that the library holds nothing (more).
func nothingHeld(t fatalT, dir, when string) {
	t.Helper()
	if d := descriptors(dir); d != nil {
		t.Fatalf("%s, file descriptors are left: %v", when, d)
	}
	if m := mappings(dir); m != nil {
		t.Fatalf("%s, memory mappings are left: %v", when, m)
	}
	// A goroutine may be about to end.
	for i := 0; ; i++ {
		s := libraryStacks()
		if s == nil {
			return
		}
		if i == 3000 {
			t.Fatalf("%s, %d goroutines of the library are left:\n%s", when, len(s), strings.Join(s, "\n\n"))
		}
		time.Sleep(time.Duration(min(i, 10)) * time.Millisecond)
	}
}

// limit lowers a soft resource limit of the process; the result restores it.
func limit(which int, to uint64) func() {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(which, &old); err != nil {
		infra("getrlimit: %v", err)
	}
	low := old
	low.Cur = min(to, old.Cur)
	if err := syscall.Setrlimit(which, &low); err != nil {
		infra("setrlimit: %v", err)
	}
	return func() {
		if err := syscall.Setrlimit(which, &old); err != nil {
			infra("setrlimit: %v", err)
		}
	}
}

// lowestFreeFd is the number that the next descriptor will get.
func lowestFreeFd() uint64 {
	fd, err := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
	if err != nil {
		infra("open: %v", err)
	}
	syscall.Close(fd)
	return uint64(fd)
}

const rlimitNofile, rlimitFsize = 7, 1

// genTrouble makes the operating system refuse something from now on.
func genTrouble(t *rapid.T, path string, open bool) (what string, heal func()) {
	block := func(s string) func() {
		os.Rename(path+s, path+s+".away")
		if os.Mkdir(path+s, 0700) != nil || os.WriteFile(path+s+"/x", nil, 0600) != nil {
			infra("block %s", s)
		}
		return func() {
			os.Remove(path + s + "/x")
			os.Remove(path + s)
			os.Rename(path+s+".away", path+s)
		}
	}
	switch what = pick(t, "trouble", "none", 6, "descriptors", 4, "space", 3, "tmp", 1, "cache", 1, "key", 1, "junk cache", 2, "no cache", 1); what {
	case "descriptors":
		n := rapid.IntRange(0, 4).Draw(t, "descriptors left")
		return fmt.Sprintf("only %d descriptors are left", n), limit(rlimitNofile, lowestFreeFd()+uint64(n))
	case "space":
		n := rapid.SampledFrom([]uint64{0, 10, 40, 100, 250, 4096, 5000, 8192, 9000, 12288, 16384, 30000}).Draw(t, "space")
		return fmt.Sprintf("files can not be longer than %d", n), limit(rlimitFsize, n)
	case "tmp":
		return "the temporary file can not be created", block(".tmp")
	case "cache":
		return "the cache can not be opened", block(".cache")
	case "key":
		return "the key file can not be read", block("")
	case "junk cache":
		if open {
			// (this would be damage while the key is in use)
			return "", func() {}
		}
		return "the cache is damaged: " + damageCache(t, path+".cache", false), func() {}
	case "no cache":
		os.Remove(path + ".cache")
		return "no cache", func() {}
	}
	return "", func() {}
}

func names(dir string) (r []string) {
	es, err := os.ReadDir(dir)
	if err != nil {
		infra("%v", err)
	}
	for _, e := range es {
		r = append(r, e.Name())
	}
	sort.Strings(r)
	return
}

func TestC33_Leaks(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	defer signal.Reset(syscall.SIGXFSZ)
	check(t, 1600, 24000, func(t *rapid.T) {
		// what is not closed must not be closed by the garbage collector
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		p := genTall(t, 5, 1, 3, 2, 9)
		k := genKey(t, p)
		dir := tmpDir()
		defer rmDir(dir)
		path := filepath.Join(dir, "key")
		var hist []string
		log := func(f string, a ...interface{}) {
			hist = append(hist, fmt.Sprintf(f, a...))
			step("C33 %v: %s", p, strings.Join(hist, "; "))
		}
		fatalf := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("%s\nhistory of %v: %s", fmt.Sprintf(f, a...), p, strings.Join(hist, "; "))
		}
		nofail := func(f func()) {
			if e := protect(f); e != nil {
				fatalf("%v", e)
			}
		}
		var heal func()
		defer func() {
			if heal != nil {
				heal()
			}
		}()
		hit := false
		exists := false
		var sk *xmssmt.PrivateKey
		defer func() {
			if sk != nil {
				sk.Close()
			}
		}()
		for r := rapid.IntRange(1, 5).Draw(t, "sessions"); r > 0; r-- {
			before := map[string]bool{"key": true, "key.cache": true}
			for _, n := range names(dir) {
				before[n] = true
			}
			clean := true
			trouble := func() {
				what, h := genTrouble(t, path, sk != nil)
				if what != "" {
					clean = false
					log("%s", what)
				}
				heal = h
			}
			recover := func() {
				if heal != nil {
					heal()
				}
				heal = nil
			}
			if rapid.Bool().Draw(t, "troubleBefore") {
				trouble()
			}
			var err xmssmt.Error
			var ctr xmssmt.PrivateKeyContainer
			how := pick(t, "how", "load", 4, "create", 2, "helper", 2, "container", 2)
			if !exists && how != "container" {
				how = pick(t, "how0", "create", 5, "load", 1, "helper", 1)
			}
			var sig []byte
			nofail(func() {
				switch how {
				case "load":
					sk, _, _, err = xmssmt.LoadPrivateKey(path)
				case "create":
					sk, _, err = derive(newCtx(t, p, rapid.IntRange(0, 3).Draw(t, "threads")), k, path)
				case "helper":
					sig, err = xmssmt.Sign(path, []byte("m"))
				case "container":
					ctr, err = xmssmt.OpenFSPrivateKeyContainer(path)
				}
			})
			if err != nil {
				hit = true
			}
			log("%s: %v", how, err)
			_ = sig
			if heal != nil && rapid.Bool().Draw(t, "over") {
				recover()
			}
			if ctr != nil {
				for i := rapid.IntRange(0, 6).Draw(t, "ctrOps"); i > 0; i-- {
					var e xmssmt.Error
					op := pick(t, "ctrOp", "get", 4, "drop", 3, "set", 2, "reset", 1, "resetcache", 1)
					a := xmssmt.SubTreeAddress{Layer: uint32(rapid.IntRange(0, p.D-1).Draw(t, "layer")), Tree: 0}
					nofail(func() {
						switch op {
						case "get":
							_, _, e = ctr.GetSubTree(a)
						case "drop":
							e = ctr.DropSubTree(a)
						case "set":
							e = ctr.SetSeqNo(1)
						case "reset":
							e = ctr.Reset(k.SkBytes(), lib(p))
						case "resetcache":
							e = ctr.ResetCache()
						}
					})
					if e == nil && op == "reset" {
						exists = true
					}
					log("%s: %v", op, e)
				}
				if heal == nil && rapid.IntRange(0, 3).Draw(t, "troubleAtLast") == 0 {
					trouble()
				}
				healed := heal == nil
				if !healed && rapid.Bool().Draw(t, "overAtLast") {
					recover()
					healed = true
				}
				nofail(func() { err = ctr.Close() })
				recover()
				if err != nil && (clean || healed) {
					fatalf("Close of the container: %v", err)
				}
				log("close container: %v", err)
				nothingHeld(t, dir, "after the container was closed ("+strings.Join(hist, "; ")+")")
			}
			if sk != nil {
				exists = true
				for i := rapid.IntRange(0, 10).Draw(t, "ops"); i > 0; i-- {
					if heal == nil && rapid.IntRange(0, 9).Draw(t, "troubleNow") == 0 {
						trouble()
					} else if heal != nil && rapid.IntRange(0, 4).Draw(t, "healNow") == 0 {
						recover()
						log("over")
					}
					var e xmssmt.Error
					op := pick(t, "op", "sign", 8, "fail", 2, "borrow", 2, "precompute", 1, "set", 1)
					nofail(func() {
						switch op {
						case "sign":
							_, e = sk.Sign(nil)
						case "fail":
							_, e = sk.SignFrom(failingReader(t))
						case "borrow":
							e = sk.BorrowExactly(uint32(rapid.IntRange(0, 4).Draw(t, "amount")))
						case "precompute":
							sk.EnableSubTreePrecomputation()
						case "set":
							sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(genIndex(t, p)))
						}
					})
					log("%s: %v", op, e != nil)
					if e != nil && op != "fail" {
						hit = true
					}
				}
				if heal == nil && rapid.IntRange(0, 3).Draw(t, "troubleAtLast") == 0 {
					trouble()
				} else if heal != nil && rapid.Bool().Draw(t, "overAtLast") {
					recover()
				}
				var e xmssmt.Error
				nofail(func() { e = sk.Close() })
				log("close: %v", e)
				recover()
				if e != nil {
					if clean {
						fatalf("Close: %v", e)
					}
					// again, if it can be tried again
					nofail(func() { sk.Close() })
				}
				sk = nil
			}
			recover()
			nothingHeld(t, dir, "after the key was closed ("+strings.Join(hist, "; ")+")")
			for _, n := range names(dir) {
				if !before[n] && (clean || strings.HasPrefix(n, "key.lock")) {
					fatalf("the file %s is left", n)
				}
			}
			eval()
		}
		if hit {
			nontrivial(fmt.Sprintf("C33 %v %v", p, hist))
			label("with failures")
		}
	})
}

// What an open key holds does not grow.
func TestC33_Growth(t *testing.T) {
	check(t, 8, 160, func(t *rapid.T) {
		p := P{Func: ref.SHA2, N: rapid.SampledFrom([]int{16, 24, 32}).Draw(t, "n"), W: rapid.SampledFrom([]int{4, 16}).Draw(t, "w"),
			D: rapid.IntRange(16, 20).Draw(t, "d"), NIST: rapid.Bool().Draw(t, "nist")}
		th := rapid.IntRange(1, 2).Draw(t, "th")
		p.H = p.D * th
		k := genKey(t, p)
		dir := tmpDir()
		defer rmDir(dir)
		onDisk := rapid.Bool().Draw(t, "onDisk")
		ctx := newCtx(t, p, rapid.IntRange(0, 2).Draw(t, "threads"))
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		var err xmssmt.Error
		var mem *memCtr
		if onDisk {
			sk, pk, err = derive(ctx, k, filepath.Join(dir, "key"))
		} else {
			mem = newMemCtr()
			sk, pk, err = deriveInto(ctx, k, mem)
		}
		if err != nil {
			t.Fatalf("create: %v", err)
		}
		defer func() { sk.Close() }()
		pre := rapid.Bool().Draw(t, "precompute")
		if pre {
			sk.EnableSubTreePrecomputation()
		}
		var plan []string
		for i := rapid.IntRange(3, 12).Draw(t, "planned"); i > 0; i-- {
			plan = append(plan, pick(t, "op", "sign", 10, "parallel", 2, "fail", 2, "borrow", 2, "verify", 2, "refuse", 1, "overlap", 2))
		}
		what := fmt.Sprintf("%v precompute %v on disk %v: %v", p, pre, onDisk, plan)
		rounds := 16000 / len(plan)
		if onDisk {
			rounds = 1500 / len(plan)
		}
		type use struct {
			fds, maps, gor, heap int
		}
		look := func() (u use) {
			quiesce()
			if mem != nil {
				// our own records
				mem.logM.Lock()
				mem.log = nil
				mem.logM.Unlock()
			}
			for i := 0; i < 3; i++ {
				runtime.GC()
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			return use{len(descriptors(dir)), len(mappings(dir)), len(libraryStacks()), int(m.HeapAlloc)}
		}
		sign := func(f func() (*xmssmt.Signature, xmssmt.Error)) *xmssmt.Signature {
			sig, err := f()
			if err != nil {
				t.Fatalf("%s: Sign: %v", what, err)
			}
			return sig
		}
		ops := 0
		run := func(n int) {
			for i := 0; i < n; i++ {
				step("C33 growth %s: %d", what, i)
				for _, op := range plan {
					if uint64(sk.SeqNo())+30 >= p.Max() {
						return
					}
					ops++
					switch op {
					case "sign":
						sign(func() (*xmssmt.Signature, xmssmt.Error) { return sk.Sign(nil) })
					case "parallel":
						var wg sync.WaitGroup
						for j := 0; j < 3; j++ {
							wg.Add(1)
							go func() { defer wg.Done(); sk.Sign(nil) }()
						}
						wg.Wait()
					case "overlap":
						// several finish before the one that began first
						_, err := sk.SignFrom(readerFunc(func(b []byte) (int, error) {
							for j := 0; j < 12; j++ {
								sign(func() (*xmssmt.Signature, xmssmt.Error) { return sk.Sign(nil) })
							}
							ops += 12
							return 0, io.EOF
						}))
						if err != nil {
							t.Fatalf("%s: SignFrom: %v", what, err)
						}
					case "fail":
						if _, err := sk.SignFrom(&oddReader{failAt: 0, err: os.ErrClosed}); err == nil {
							t.Fatalf("%s: SignFrom succeeds although the source failed", what)
						}
					case "borrow":
						if err := sk.BorrowExactly(uint32(i % 3)); err != nil {
							t.Fatalf("%s: BorrowExactly: %v", what, err)
						}
					case "verify":
						sig := sign(func() (*xmssmt.Signature, xmssmt.Error) { return sk.Sign([]byte("m")) })
						if ok, err := pk.Verify(sig, []byte("m")); !ok {
							t.Fatalf("%s: Verify: %v", what, err)
						}
						if ok, _ := xmssmt.Verify(mustBytes(t, pk), mustBytes(t, sig), []byte("n")); ok {
							t.Fatalf("%s: Verify accepts another message", what)
						}
					case "refuse":
						xmssmt.Verify([]byte("junk"), []byte("junk"), nil)
						xmssmt.NewContextFromName2("XMSSMT-JUNK_10/3")
						if onDisk {
							if _, _, _, err := xmssmt.LoadPrivateKey(filepath.Join(dir, "key")); err == nil {
								t.Fatalf("%s: the key was opened twice", what)
							}
						}
					}
				}
			}
		}
		run(rounds / 5)
		a, n := look(), ops
		run(rounds)
		b := look()
		n = ops - n
		if n < 100 {
			return
		}
		cached := sk.CachedSubTrees()
		if b.maps > cached {
			t.Fatalf("%s: %d subtrees are cached, and there are %d memory mappings", what, cached, b.maps)
		}
		if b.fds > a.fds || b.gor > a.gor {
			t.Fatalf("%s: %d operations later there are %d descriptors (instead of %d), %d goroutines (instead of %d)", what, n, b.fds, a.fds, b.gor, a.gor)
		}
		// (Measured: less than 45 kB, whatever the number of operations.)
		g := b.heap - a.heap
		for i := 0; g > 200<<10 && i < 2; i++ {
			// does it go on?
			run(rounds)
			c := look()
			b, g = c, min(g, c.heap-b.heap)
		}
		if g > 200<<10 {
			t.Fatalf("%s: %d operations took %d bytes of memory for good", what, n, g)
		}
		label("heap growth: %d per 100 operations", max(g, 0)*100/n/100*100)
		nontrivial("C33 growth " + what)
		eval()
	})
}

// Failures do not use up space in the cache.
func TestC33_Room(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	defer signal.Reset(syscall.SIGXFSZ)
	check(t, 480, 8000, func(t *rapid.T) {
		p := genTall(t, 5, 1, 4, 2, 9)
		k := genKey(t, p)
		dir := tmpDir()
		defer rmDir(dir)
		path := filepath.Join(dir, "key")
		var hist []string
		log := func(f string, a ...interface{}) {
			hist = append(hist, fmt.Sprintf(f, a...))
			step("C33 room %v: %s", p, strings.Join(hist, "; "))
		}
		fatalf := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("%s\nhistory of %v: %s", fmt.Sprintf(f, a...), p, strings.Join(hist, "; "))
		}
		ctx := newCtx(t, p, rapid.IntRange(0, 3).Draw(t, "threads"))
		sk, _, err := derive(ctx, k, path)
		if err != nil {
			t.Fatalf("create: %v", err)
		}
		defer func() { sk.Close() }()
		heal := func() {}
		defer func() { heal() }()
		th := p.H / p.D
		failed := 0
		most := 0 // subtrees cached at a time
		for i := rapid.IntRange(5, 40).Draw(t, "ops"); i > 0; i-- {
			switch op := pick(t, "op", "sign", 6, "burst", 4, "short", 4, "over", 3, "reopen", 2, "cold", 1, "precompute", 1, "far", 3); op {
			case "sign", "burst":
				n := 1
				if op == "burst" {
					n = rapid.IntRange(2, 3<<th).Draw(t, "n")
				}
				f := 0
				for ; n > 0; n-- {
					if e := protect(func() { _, err = sk.Sign(nil) }); e != nil {
						fatalf("%v", e)
					}
					if err != nil {
						f++
					}
					most = max(most, sk.CachedSubTrees())
				}
				failed += f
				log("%s: %d failed", op, f)
			case "short":
				heal()
				k := rapid.IntRange(0, p.D+1).Draw(t, "subtrees")
				lp := lib(p)
				n := (lp.CachedSubTreeSize()+13+4095)/4096*4096*k + rapid.SampledFrom([]int{250, 4096, 5000}).Draw(t, "more")
				log("files can not be longer than %d", n)
				heal = limit(rlimitFsize, uint64(n))
			case "over":
				log("over")
				heal()
				heal = func() {}
			case "reopen", "cold":
				heal()
				heal = func() {}
				if err := sk.Close(); err != nil {
					fatalf("Close: %v", err)
				}
				if op == "cold" {
					os.Remove(path + ".cache")
				}
				if sk, _, _, err = xmssmt.LoadPrivateKey(path); err != nil {
					fatalf("open: %v", err)
				}
				most = max(most, sk.CachedSubTrees())
				log("%s", op)
			case "precompute":
				log("precompute")
				sk.EnableSubTreePrecomputation()
			case "far":
				n := genIndex(t, p)
				log("set %d", n)
				sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(n))
			}
			quiesce()
			most = max(most, sk.CachedSubTrees())
			eval()
		}
		heal()
		heal = func() {}
		for i := 0; i < 2<<th; i++ {
			sk.Sign(nil)
			most = max(most, sk.CachedSubTrees())
		}
		if err := sk.Close(); err != nil {
			fatalf("Close: %v", err)
		}
		b, e := os.ReadFile(path + ".cache")
		if e != nil || len(b) < 12 {
			fatalf("the cache: %d bytes, %v", len(b), e)
		}
		// While one subtree is made there may be others that are to be dropped
		// once it is there, one for each layer.
		if n := int(binary.BigEndian.Uint32(b[8:])); n > most+p.D {
			fatalf("there is room for %d subtrees in the cache, but at most %d were cached at a time", n, most)
		}
		if failed > 0 {
			nontrivial(fmt.Sprintf("C33 room %v %v", p, hist))
			label("no room")
		}
	})
}

// A system call fails in a process that uses the key; nothing is left either.
func TestC33_System(t *testing.T) {
	if !haveStrace() {
		label("no strace: system calls are not made to fail")
		return
	}
	check(t, 1200, 20000, func(t *rapid.T) {
		p := genLife(t, 2, 1, 4, 2, 9)
		k := genKey(t, p)
		root := tmpDir()
		defer rmDir(root)
		dir := filepath.Join(root, "k")
		os.Mkdir(dir, 0700)
		path := filepath.Join(dir, "key")
		first := deriveCmd("", k)
		if rapid.Bool().Draw(t, "exists") {
			sk, _, err := derive(newCtx(t, p, 1), k, path)
			if err != nil {
				t.Fatalf("create: %v", err)
			}
			for i := rapid.IntRange(0, 4).Draw(t, "before"); i > 0; i-- {
				sk.Sign(nil)
			}
			sk.Close()
			if rapid.IntRange(0, 3).Draw(t, "damage") == 0 {
				damageCache(t, path+".cache", false)
			}
			first = cmdT{Op: "load"}
		}
		// (The worker is a new process: each session is "first" again.)
		var ops []cmdT
		for s := rapid.IntRange(1, 3).Draw(t, "sessions"); s > 0; s-- {
			if rapid.IntRange(0, 3).Draw(t, "fast") == 0 {
				ops = append(ops, cmdT{Op: "fastsign", Msg: "6d"})
			} else {
				ops = append(ops, first)
				ops = append(ops, genOps(t, p, 6)...)
			}
			ops = append(ops, cmdT{Op: "close"}, cmdT{Op: "close"}, cmdT{Op: "held"})
			if rapid.IntRange(0, 3).Draw(t, "createAgain") == 0 {
				first = deriveCmd("", k)
			} else {
				first = cmdT{Op: "load"}
			}
		}
		ops = withPath(ops, path)
		for i := range ops {
			if ops[i].Op == "held" {
				ops[i].Path = dir
			}
		}
		type target struct{ file, call string }
		// (A call to close or munmap that is made to fail does nothing, unlike a real one.)
		tg := rapid.SampledFrom([]target{
			{".tmp", "openat"}, {".tmp", "write"}, {".tmp", "write"}, {".tmp", "fsync"}, {".tmp", "fsync"}, {".tmp", "renameat"},
			{"", "openat"}, {"", "read"}, {"", "read"}, {"", "newfstatat"},
			{"dir", "openat"}, {"dir", "fsync"}, {"dir", "fsync"},
			{".cache", "openat"}, {".cache", "mmap"}, {".cache", "mmap"}, {".cache", "ftruncate"}, {".cache", "ftruncate"}, {".cache", "write"},
			{".cache", "write"}, {".cache", "read"}, {".cache", "lseek"}, {".cache", "fstat"},
			{".lock", "linkat"}, {".lock", "unlinkat"}, {".lock", "openat"}, {".lock", "read"}, {".lock", "newfstatat"},
			{"any", "unlinkat"}, {"any", "linkat"},
		}).Draw(t, "target")
		errno := rapid.SampledFrom([]string{"EIO", "ENOSPC", "EACCES", "EMFILE", "ENOMEM", "EROFS"}).Draw(t, "errno")
		when := fmt.Sprint(rapid.IntRange(1, 6).Draw(t, "when"))
		switch rapid.IntRange(0, 2).Draw(t, "often") {
		case 1:
			when += "+"
		case 2:
			when += fmt.Sprintf("+%d", rapid.IntRange(2, 4).Draw(t, "step"))
		}
		args := []string{"-y"}
		switch tg.file {
		case "any":
		case "dir":
			args = append(args, "-P", dir)
		default:
			args = append(args, "-P", path+tg.file)
		}
		args = append(args, "-e", "trace=openat,read,write,fsync,renameat,linkat,unlinkat,newfstatat,fstat,ftruncate,lseek,mmap",
			"-e", fmt.Sprintf("inject=%s:error=%s:when=%s", tg.call, errno, when))
		what := fmt.Sprintf("%v: %s; %s of key%s fails with %s, when=%s", p, opNames(ops), tg.call, tg.file, errno, when)
		step("C33 %s", what)
		r := runScript(root, ops, args, 0)
		tr, _ := os.ReadFile(r.Trace)
		if r.Exit != 0 || r.Killed {
			if strings.Contains(r.Stderr, "VERIF-INFRA") || len(r.Replies) == 0 && !strings.Contains(string(tr), path) {
				label("the process did not start")
				return
			}
			t.Fatalf("%s: the process ended with status %d: %s", what, r.Exit, firstLines(r.Stderr, 60))
		}
		for _, rep := range r.Replies {
			if strings.HasPrefix(rep.Err, "PANIC") {
				t.Fatalf("%s: %s: %s", what, rep.Op, rep.Err)
			}
			if rep.Op == "held" && rep.OK {
				eval()
				if len(rep.Out) > 0 {
					t.Fatalf("%s: after the key was closed, this is left: %v\nreplies: %q", what, rep.Out, errsOf(r.Replies))
				}
			}
		}
		if strings.Contains(string(tr), "(INJECTED)") {
			label("failing %s key%s", tg.call, tg.file)
			nontrivial("C33 system " + what)
		}
	})
}

type readerFunc func(b []byte) (int, error)

func (f readerFunc) Read(b []byte) (int, error) { return f(b) }
