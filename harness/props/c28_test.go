package props

import (
	"bytes"
	"encoding"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C28: secrets stay where they belong.

// logSink, if set, receives the log messages of the library.
var logSink atomic.Pointer[collected]

type collected struct {
	mu sync.Mutex
	l  []string
}

func (c *collected) add(s string) {
	c.mu.Lock()
	c.l = append(c.l, s)
	c.mu.Unlock()
}

// secretForms lists the ways in which (a good part of) a secret may appear.
type secretForms struct {
	name  string
	raw   []byte
	texts []string
}

func formsOf(name string, secret []byte) (f secretForms) {
	f.name = name
	// half of it is bad enough
	f.raw = secret[:len(secret)/2]
	for _, part := range [][]byte{secret[:len(secret)/2], secret[len(secret)/2:]} {
		h := hex.EncodeToString(part)
		dec := strings.Trim(fmt.Sprint(part), "[]")
		f.texts = append(f.texts, h, strings.ToUpper(h), dec, strings.ReplaceAll(dec, " ", ", "), fmt.Sprintf("% x", part))
	}
	// base64 of something that contains the secret, at any of the three offsets
	for off := 0; off < 3; off++ {
		b := base64.RawStdEncoding.EncodeToString(append(make([]byte, off), secret...))
		f.texts = append(f.texts, b[4:len(b)-4])
	}
	return
}

// in tells whether b contains the secret.
func (f *secretForms) in(b []byte) bool {
	if bytes.Contains(b, f.raw) {
		return true
	}
	for _, t := range f.texts {
		if bytes.Contains(b, []byte(t)) {
			return true
		}
	}
	return false
}

func TestC28_Secrets(t *testing.T) {
	// whatever the umask
	old := syscall.Umask(0)
	defer syscall.Umask(old)
	check(t, 1200, 12000, func(t *rapid.T) {
		syscall.Umask(rapid.SampledFrom([]int{0, 0, 022, 077, 0177}).Draw(t, "umask"))
		defer syscall.Umask(0)
		p := genLife(t, 8, 1, 4, 2, 8)
		sink := &collected{}
		logSink.Store(sink)
		defer logSink.Store(nil)
		var k *ref.Key
		var secrets []secretForms
		dir := tmpDir()
		defer rmDir(dir)
		path := filepath.Join(dir, "key")
		onDisk := rapid.IntRange(0, 3).Draw(t, "onDisk") > 0
		var mem *memCtr
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		hist := []string{}
		fatalf := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("%s\nhistory of %v: %s", fmt.Sprintf(f, a...), p, strings.Join(hist, "; "))
		}
		logf := func(f string, a ...interface{}) {
			hist = append(hist, fmt.Sprintf(f, a...))
			step("C28 %v %v", p, hist)
		}
		looked := 0
		// look checks something that leaves the library
		look := func(what string, b []byte) {
			t.Helper()
			looked++
			for i := range secrets {
				if secrets[i].in(b) {
					fatalf("%s contains the secret %s: %.200q", what, secrets[i].name, b)
				}
			}
		}
		lookErr := func(what string, err error) {
			t.Helper()
			if err != nil {
				look("the error of "+what, []byte(fmt.Sprintf("%v %+v", err, err.Error())))
			}
		}
		// everything around the key file
		lookAround := func() {
			t.Helper()
			quiesce() // precomputation
			es, _ := os.ReadDir(dir)
			for _, e := range es {
				fi, err := os.Lstat(filepath.Join(dir, e.Name()))
				if err != nil || !fi.Mode().IsRegular() {
					continue
				}
				if strings.HasPrefix(e.Name(), "key") && !strings.HasSuffix(e.Name(), ".lock") && fi.Mode().Perm()&077 != 0 {
					fatalf("the file %s can be used by others: its mode is %v", e.Name(), fi.Mode())
				}
				if e.Name() != "key" && !strings.HasSuffix(e.Name(), ".tmp") {
					b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
					look("the file "+e.Name(), b)
				}
			}
			if mem != nil {
				for a, b := range mem.cache {
					look(fmt.Sprintf("the cached subtree %v", a), b)
				}
			}
			sink.mu.Lock()
			l := strings.Join(sink.l, "\n")
			sink.l = nil
			sink.mu.Unlock()
			look("the log", []byte(l))
		}
		// objects in all their forms
		lookObject := func(what string, o interface {
			encoding.BinaryMarshaler
		}) {
			t.Helper()
			b, err := o.MarshalBinary()
			lookErr("MarshalBinary", err)
			look("the encoding of "+what, b)
			if m, ok := o.(encoding.TextMarshaler); ok {
				b, err := m.MarshalText()
				lookErr("MarshalText", err)
				look("the text of "+what, b)
				if d, err := base64.StdEncoding.DecodeString(string(b)); err == nil {
					look("the text of "+what, d)
				}
			}
			b, _ = json.Marshal(o)
			look("the JSON form of "+what, b)
		}
		mem = nil
		create := func() {
			k = genKey(t, p)
			for i, b := range [][]byte{k.SkSeed, k.SkPrf} {
				// A secret of zeroes could be anywhere.
				copy(b, expand(rapid.Uint64().Draw(t, "secret")^0x5ec2e75ec2e75ec2, len(b)))
				secrets = append(secrets, formsOf([]string{"skSeed", "skPrf"}[i], append([]byte(nil), b...)))
			}
			ctx := newCtx(t, p, 1)
			var err xmssmt.Error
			if onDisk {
				sk, pk, err = derive(ctx, k, path)
			} else {
				mem = newMemCtr()
				sk, pk, err = deriveInto(ctx, k, mem)
			}
			logf("create")
			if err != nil {
				fatalf("create: %v", err)
			}
		}
		load := func() {
			var err xmssmt.Error
			if onDisk {
				sk, pk, _, err = xmssmt.LoadPrivateKey(path)
			} else {
				mem = mem.reopened()
				sk, pk, _, err = xmssmt.LoadPrivateKeyFrom(mem)
			}
			lookErr("loading", err)
			if err != nil {
				fatalf("load: %v", err)
			}
		}
		create()
		lookAround()
		defer func() {
			if sk != nil {
				sk.Close()
			}
		}()
		n := rapid.IntRange(3, 14).Draw(t, "n")
		for i := 0; i < n; i++ {
			op := pick(t, "op", "sign", 6, "failsign", 1, "borrow", 1, "reopen", 2, "damage", 1, "over", 1, "locked", 1, "objects", 2, "blocked", 1, "badseeds", 1, "pre", 1)
			logf("%s", op)
			switch op {
			case "sign":
				sig, err := sk.Sign(genShortMsg(t))
				lookErr("Sign", err)
				if err == nil {
					lookObject("the signature", sig)
					look("the signature, printed,", []byte(fmt.Sprintf("%v %s", sig, sig)))
				}
			case "failsign":
				_, err := sk.SignFrom(failingReader(t))
				lookErr("SignFrom", err)
			case "borrow":
				lookErr("BorrowExactly", sk.BorrowExactly(uint32(rapid.IntRange(0, 5).Draw(t, "amount"))))
			case "pre":
				sk.EnableSubTreePrecomputation()
			case "reopen":
				lookErr("Close", sk.Close())
				load()
			case "damage":
				lookErr("Close", sk.Close())
				sk = nil
				if onDisk && rapid.Bool().Draw(t, "keyFile") {
					b, _ := os.ReadFile(path)
					bad := append([]byte(nil), b...)
					bad[rapid.IntRange(0, min(len(b), 40)-1).Draw(t, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
					if rapid.Bool().Draw(t, "cut") {
						bad = bad[:rapid.IntRange(0, len(bad)-1).Draw(t, "len")]
					}
					if err := os.WriteFile(path, bad, 0600); err != nil {
						infra("%v", err)
					}
					x, _, _, err := xmssmt.LoadPrivateKey(path)
					lookErr("loading a damaged key", err)
					if err == nil {
						x.Close()
					}
					os.WriteFile(path, b, 0600)
				}
				if onDisk {
					damageCache(t, path+".cache", false)
					if fi, err := os.Lstat(path + ".cache"); err == nil && fi.Mode().IsRegular() {
						os.Chmod(path+".cache", 0600)
					}
				} else {
					for _, b := range mem.cache {
						if len(b) > 0 {
							b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] ^= 4
						}
					}
				}
				load()
			case "over":
				if !onDisk {
					continue
				}
				lookErr("Close", sk.Close())
				create()
			case "locked":
				if onDisk {
					_, err := xmssmt.Sign(path, nil)
					lookErr("Sign on a locked key", err)
					_, _, err = derive(newCtx(t, p, 1), k, path)
					lookErr("Derive over a locked key", err)
				}
			case "objects":
				lookObject("the public key", pk)
				lookObject("the public key", sk.PublicKey())
				look("the context", []byte(fmt.Sprintf("%v %v %s", sk.Context().Params(), sk.Context().Name(), sk.Context().Params().String())))
			case "blocked":
				// the key file can not be written
				if !onDisk {
					mem.fault = func(op string, before bool) xmssmt.Error {
						if before {
							return &ctrErr{"injected"}
						}
						return nil
					}
				} else if os.Mkdir(path+".tmp", 0700) != nil {
					continue
				}
				_, err := sk.Sign(nil)
				lookErr("Sign with the storage failing", err)
				lookErr("BorrowExactly with the storage failing", sk.BorrowExactly(3))
				if onDisk {
					os.Remove(path + ".tmp")
				} else {
					mem.fault = nil
				}
			case "badseeds":
				if onDisk {
					// wrong sizes, with the true secrets
					_, _, err := newCtx(t, p, 1).Derive(filepath.Join(dir, "other"), k.PubSeed, append(k.SkSeed[:len(k.SkSeed):len(k.SkSeed)], 1), k.SkPrf)
					lookErr("Derive with seeds of a wrong size", err)
				}
			}
			lookAround()
			eval()
		}
		nontrivial(fmt.Sprintf("C28 %v disk=%v %v", p, onDisk, hist))
		label("disk=%v", onDisk)
		if looked > 50 {
			label("more than 50 outputs searched")
		}
	})
}

// The files are private from the moment they exist, and what is written next to
// them does not contain the secrets: as seen in the system calls.
func TestC28_Files(t *testing.T) {
	if !haveStrace() {
		infra("strace does not work here")
	}
	old := syscall.Umask(0)
	defer syscall.Umask(old)
	check(t, 480, 2400, func(t *rapid.T) {
		p := genLife(t, 1, 1, 4, 2, 9)
		k := genKey(t, p)
		var secrets []secretForms
		for i, b := range [][]byte{k.SkSeed, k.SkPrf} {
			copy(b, expand(rapid.Uint64().Draw(t, "secret")^0x5ec2e75ec2e75ec2, len(b)))
			secrets = append(secrets, formsOf([]string{"skSeed", "skPrf"}[i], b))
		}
		ops := append([]cmdT{deriveCmd("", k)}, genOps(t, p, 8)...)
		if rapid.IntRange(0, 3).Draw(t, "over") == 0 {
			ops = append(append(ops, cmdT{Op: "close"}), deriveCmd("", k))
		}
		root := tmpDir()
		defer rmDir(root)
		kd := filepath.Join(root, "k")
		os.Mkdir(kd, 0755)
		path := filepath.Join(kd, "key")
		args := []string{"-xx", "-s", "1000000", "-e", "trace=chmod,fchmod,fchmodat,fchmodat2,link,linkat,symlink,symlinkat,umask," + diskCalls}
		fault := ""
		if rapid.IntRange(0, 3).Draw(t, "fault") == 0 {
			// things go wrong
			call := pick(t, "call", "fsync", 5, "renameat", 2, "write", 2)
			fault = fmt.Sprintf("inject=%s:error=EIO:when=%d", call, rapid.IntRange(1, 12).Draw(t, "when"))
			args = append(args, "-e", fault)
		}
		l := newCrashLife(t, p, k)
		l.log("%s %s", opNames(ops), fault)
		r := runScript(root, withPath(ops, path), args, 0)
		if r.Exit != 0 || r.Killed {
			if fault != "" && len(r.Replies) == 0 {
				label("process did not start")
				return
			}
			l.fatalf("the process ended with status %d: %s", r.Exit, firstLines(r.Stderr, 30))
		}
		leaks := func(what string, b []byte) {
			for i := range secrets {
				if secrets[i].in(b) {
					l.fatalf("%s contains the secret %s", what, secrets[i].name)
				}
			}
		}
		leaks("what was printed", []byte(r.Stderr))
		for _, rep := range r.Replies {
			leaks("the error of "+rep.Op, []byte(rep.Err))
		}
		fds := map[int]string{}
		made, wrote := 0, 0
		for _, c := range readTrace(r.Trace) {
			if c.fail {
				continue
			}
			// a mode that lets others in
			open := func(i int) bool { m := c.num(i); return m >= 0 && m&077 != 0 }
			switch c.name {
			case "open", "creat", "openat":
				f, m := string(c.strs[0]), 3
				if c.name == "open" {
					m = 2
				} else if c.name == "creat" {
					m = 1
				}
				fds[c.ret] = f
				if !strings.HasPrefix(f, path) || strings.HasSuffix(f, ".lock") {
					continue
				}
				if c.name == "creat" || strings.Contains(c.args, "O_CREAT") {
					made++
					if open(m) {
						l.fatalf("the file %s is created with mode %s", filepath.Base(f), c.arg(m))
					}
				}
			case "chmod", "fchmodat", "fchmodat2":
				m := 1
				if c.name != "chmod" {
					m = 2
				}
				if f := string(c.strs[0]); strings.HasPrefix(f, path) && !strings.HasSuffix(f, ".lock") && open(m) {
					l.fatalf("the file %s is opened to others: mode %s", filepath.Base(f), c.arg(m))
				}
			case "fchmod":
				if f := fds[c.num(0)]; strings.HasPrefix(f, path) && !strings.HasSuffix(f, ".lock") && open(1) {
					l.fatalf("the file %s is opened to others: mode %s", filepath.Base(f), c.arg(1))
				}
			case "write", "pwrite64":
				f := fds[c.num(0)]
				wrote++
				if f == path || f == path+".tmp" || len(c.strs) == 0 {
					continue
				}
				leaks("what is written to "+f, c.strs[0])
			case "close":
				delete(fds, c.num(0))
			}
		}
		// what is left
		es, _ := os.ReadDir(kd)
		for _, e := range es {
			f := filepath.Join(kd, e.Name())
			if f == path || f == path+".tmp" {
				continue
			}
			b, _ := os.ReadFile(f)
			leaks("the file "+e.Name(), b)
		}
		eval()
		nontrivial(fmt.Sprintf("C28 traced %v %s %s", p, opNames(ops), fault))
		if made == 0 || wrote == 0 {
			l.fatalf("harness: nothing seen")
		}
	})
}
