package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C10: at most one holder of a key at a time.

func TestC10_Histories(t *testing.T) {
	check(t, 7200, 40000, func(t *rapid.T) {
		p := genLife(t, 5, 1, 3, 3, 7)
		k := genKey(t, p)
		dir := tmpDir()
		defer rmDir(dir)
		real := filepath.Join(dir, "real")
		os.Mkdir(real, 0700)
		os.Symlink(real, filepath.Join(dir, "link"))
		os.Symlink("key", filepath.Join(real, "alias"))
		path := filepath.Join(real, "key")
		wd, e := os.Getwd()
		if e != nil {
			infra("getwd: %v", e)
		}
		rel, e := filepath.Rel(wd, path)
		if e != nil {
			infra("rel: %v", e)
		}
		exists := false
		spell := func() string {
			s := []string{path, path, path, real + "/./key", real + "//key", real + "/../real/key", dir + "/link/key", rel}
			if exists { // otherwise the key is created in place of the dangling link
				s = append(s, real+"/alias", dir+"/link/alias")
			}
			return rapid.SampledFrom(s).Draw(t, "spelling")
		}
		var hist []string
		fatalf := func(f string, a ...interface{}) {
			t.Fatalf("%s\nhistory of %v: %v", fmt.Sprintf(f, a...), p, hist)
		}
		logf := func(f string, a ...interface{}) {
			hist = append(hist, fmt.Sprintf(f, a...))
			step("%v %v", p, hist)
		}
		var kids [2]*peer
		defer func() {
			for _, c := range kids {
				if c != nil {
					c.kill()
				}
			}
		}()
		// holder: -1 nobody, 0 this process, 1.. a child
		holder := -1
		self := &workerState{}
		defer func() {
			if self.sk != nil {
				self.sk.Close()
			}
		}()
		do := func(who int, c cmdT) repT {
			if who == 0 {
				return self.run(c)
			}
			if kids[who-1] == nil {
				kids[who-1] = newPeer("plain")
			}
			r, err := kids[who-1].do(c)
			if err != nil {
				fatalf("%s by process %d: %v", c.Op, who, err)
			}
			return r
		}
		next := uint64(0)
		keyBytes := func() string {
			b, _ := os.ReadFile(path)
			c, _ := os.ReadFile(path + ".cache")
			return string(b) + "|" + string(c)
		}
		attempts := 0
		n := rapid.IntRange(8, 25).Draw(t, "n")
		for i := 0; i < n; i++ {
			who := rapid.IntRange(0, 2).Draw(t, "who")
			switch op := pick(t, "op", "take", 10, "use", 4, "release", 4, "die", 2, "damaged", 1, "blocked", 1, "time passes", 2); op {
			case "time passes":
				// The key is held (or left behind) for a long time; or the clock jumps.
				d := time.Duration(rapid.SampledFrom([]int64{60, 3601, 86401, 40 * 86400, 11 * 366 * 86400, -7200}).Draw(t, "age")) * time.Second
				when := time.Now().Add(-d)
				files, _ := filepath.Glob(filepath.Join(real, "*"))
				for _, f := range files {
					if filepath.Base(f) != "alias" {
						os.Chtimes(f, when, when)
					}
				}
				logf("%v pass", d)
			case "take":
				sp := spell()
				var c cmdT
				switch rapid.IntRange(0, 6).Draw(t, "how") {
				case 0:
					c = deriveCmd(sp, k)
				case 1:
					c = cmdT{Op: "generate", Path: sp, P: p, Threads: 1}
				case 2:
					c = cmdT{Op: "fastsign", Path: sp, Msg: "00"}
				default:
					c = cmdT{Op: "load", Path: sp}
				}
				if holder >= 0 {
					// must be refused
					if who == holder && who != 0 {
						// a second time in the same process
					}
					before := keyBytes()
					old := *self
					r := do(who, c)
					logf("%d: %s(%s)=%v,%v", who, c.Op, filepath.Base(sp), r.OK, r.Locked)
					if who == 0 && !r.OK {
						*self = old
					}
					if r.OK {
						fatalf("%s by process %d succeeds while process %d holds the key", c.Op, who, holder)
					}
					if !r.Locked {
						fatalf("%s by process %d is refused while process %d holds the key, but not because it is locked: %s", c.Op, who, holder, r.Err)
					}
					if keyBytes() != before {
						fatalf("the refused %s changed the files", c.Op)
					}
					attempts++
					eval()
					continue
				}
				if c.Op == "generate" {
					continue // would change the key
				}
				if c.Op == "fastsign" || c.Op == "load" {
					if !exists {
						r := do(who, c)
						logf("%d: %s without a key: %s", who, c.Op, r.Err)
						if r.OK {
							fatalf("%s of a key that does not exist", c.Op)
						}
						continue
					}
				}
				r := do(who, c)
				logf("%d: %s(%s)=%v", who, c.Op, filepath.Base(sp), r.OK)
				if !r.OK {
					if c.Op == "fastsign" && next >= p.Max() {
						continue
					}
					fatalf("%s by process %d fails although nobody holds the key: %s", c.Op, who, r.Err)
				}
				switch c.Op {
				case "derive":
					holder, exists, next = who, true, 0
				case "load":
					if r.SeqNo != next {
						fatalf("loaded at %d, want %d", r.SeqNo, next)
					}
					holder = who
				case "fastsign":
					next++
				}
			case "use":
				if holder < 0 {
					continue
				}
				r := do(holder, cmdT{Op: "sign", Msg: "0102"})
				logf("%d: sign=%v", holder, r.OK)
				if next >= p.Max() {
					if r.OK {
						fatalf("signature beyond the end")
					}
					continue
				}
				if !r.OK || r.SeqNo != next {
					fatalf("the holder (process %d) can not sign at %d: %d %s", holder, next, r.SeqNo, r.Err)
				}
				if ok, err := xmssmt.Verify(k.PK(), unhex(r.Sig), []byte{1, 2}); !ok {
					fatalf("the holder's signature is refused: %v", err)
				}
				next++
			case "release":
				if holder < 0 {
					continue
				}
				r := do(holder, cmdT{Op: "close"})
				logf("%d: close=%v", holder, r.OK)
				if !r.OK {
					fatalf("close: %s", r.Err)
				}
				holder = -1
			case "die":
				if holder < 1 {
					continue
				}
				c := kids[holder-1]
				if rapid.Bool().Draw(t, "killed") {
					c.kill()
				} else {
					c.quit()
				}
				kids[holder-1] = nil
				logf("%d: dies", holder)
				holder = -1
			case "damaged":
				if holder >= 0 || !exists {
					continue
				}
				// opening fails for another reason, and must not keep the lock
				b, _ := os.ReadFile(path)
				bad := append([]byte(nil), b...)
				switch rapid.IntRange(0, 3).Draw(t, "damage") {
				case 0:
					bad = bad[:rapid.IntRange(0, len(bad)-1).Draw(t, "cut")]
				case 1:
					bad[0] ^= 1
				case 2:
					bad[12] = 7 // N
				case 3:
					bad[24] = 0xff // index
				}
				os.WriteFile(path, bad, 0600)
				c := cmdT{Op: rapid.SampledFrom([]string{"load", "fastsign"}).Draw(t, "how"), Path: spell()}
				r := do(who, c)
				logf("%d: %s damaged=%v", who, c.Op, r.OK)
				if r.OK {
					fatalf("a damaged key file is accepted")
				}
				os.WriteFile(path, b, 0600)
			case "blocked":
				if holder >= 0 {
					continue
				}
				// the lock can not be taken, as there is something in the way
				os.Remove(path + ".lock")
				os.Mkdir(path+".lock", 0700)
				os.WriteFile(path+".lock/x", nil, 0600)
				c := cmdT{Op: "load", Path: spell()}
				if rapid.Bool().Draw(t, "derive") {
					c = deriveCmd(spell(), k)
				}
				r := do(who, c)
				logf("%d: %s blocked=%v", who, c.Op, r.OK)
				os.Remove(path + ".lock/x")
				os.Remove(path + ".lock")
				if r.OK {
					fatalf("%s succeeds without having the lock", c.Op)
				}
			}
		}
		if attempts > 0 {
			nontrivial(fmt.Sprintf("C10 %v %v", p, hist))
		}
		label("attempts=%d", min(attempts, 5))
	})
}

// Many try at the same time.
func TestC10_Contention(t *testing.T) {
	check(t, 4800, 30000, func(t *rapid.T) {
		p := P{Func: ref.SHA2, N: 16, W: 16, D: 2, H: 8}
		k := genKey(t, p)
		dir := tmpDir()
		defer rmDir(dir)
		path := dir + "/key"
		os.Symlink(dir, dir+"/link")
		sk, _, err := derive(newCtx(t, p, 1), k, path)
		if err != nil {
			t.Fatalf("derive: %v", err)
		}
		sk.Close()
		nKids := rapid.IntRange(0, 2).Draw(t, "processes")
		goroutines := rapid.IntRange(2, 6).Draw(t, "goroutines")
		tries := rapid.IntRange(2, 8).Draw(t, "tries")
		j := newJitter(t)
		step("%d processes, %d goroutines, %d tries", nKids, goroutines, tries)
		var holders, held int32
		var mu sync.Mutex
		used := map[uint64]bool{}
		var bad []string
		complain := func(f string, a ...interface{}) {
			mu.Lock()
			bad = append(bad, fmt.Sprintf(f, a...))
			mu.Unlock()
		}
		take := func(run func(cmdT) repT, g int) {
			pth := path
			if g%2 == 1 {
				pth = dir + "/link/key"
			}
			for i := 0; i < tries; i++ {
				j.wait()
				r := run(cmdT{Op: "load", Path: pth})
				if !r.OK {
					// Another process may release it between the steps of
					// taking the lock, which makes for other errors.
					if !r.Locked && nKids == 0 {
						complain("load fails, but not because the key is locked: %s", r.Err)
					}
					continue
				}
				if n := atomic.AddInt32(&holders, 1); n != 1 {
					complain("%d hold the key at the same time", n)
				}
				atomic.AddInt32(&held, 1)
				s := run(cmdT{Op: "sign", Msg: "00"})
				if s.OK {
					mu.Lock()
					if used[s.SeqNo] {
						bad = append(bad, fmt.Sprintf("index %d is used twice", s.SeqNo))
					}
					used[s.SeqNo] = true
					mu.Unlock()
				}
				j.wait()
				atomic.AddInt32(&holders, -1)
				if c := run(cmdT{Op: "close"}); !c.OK {
					complain("close: %s", c.Err)
				}
			}
		}
		var wg sync.WaitGroup
		var kids []*peer
		for i := 0; i < nKids; i++ {
			kids = append(kids, newPeer("plain"))
		}
		defer func() {
			for _, c := range kids {
				c.quit()
			}
		}()
		for g := 0; g < goroutines; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				w := &workerState{}
				take(w.run, g)
			}(g)
		}
		for g := range kids {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				take(func(c cmdT) repT {
					r, err := kids[g].do(c)
					if err != nil {
						complain("%s: %v", c.Op, err)
					}
					return r
				}, g)
			}(g)
		}
		wg.Wait()
		if len(bad) > 0 {
			t.Fatalf("%d processes, %d goroutines: %s", nKids+1, goroutines, bad[0])
		}
		w := &workerState{}
		if r := w.run(cmdT{Op: "load", Path: path}); !r.OK {
			t.Fatalf("after all is over, the key can not be opened: %s", r.Err)
		}
		w.sk.Close()
		evalN(int(held))
		if held > 0 {
			nontrivial(fmt.Sprintf("C10 contention %v %d %d %d %d", k.SkSeed[:4], nKids, goroutines, tries, held))
			label("contention: held %d", min(held, 9))
		}
	})
}
