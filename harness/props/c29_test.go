package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C29: failures are reported as what they are.

// injErr is an error of the storage.
type injErr struct {
	s      string
	locked bool
	inner  error
}

func (e *injErr) Error() string { return e.s }
func (e *injErr) Locked() bool  { return e.locked }
func (e *injErr) Inner() error  { return e.inner }

// causes lists an error and all that it wraps, in whatever way.
func causes(err error) (all []error) {
	seen := 0
	var walk func(e error)
	walk = func(e error) {
		if e == nil || seen > 200 {
			return
		}
		if v := reflect.ValueOf(e); v.Kind() == reflect.Ptr && v.IsNil() {
			return
		}
		seen++
		all = append(all, e)
		switch x := e.(type) {
		case interface{ Inner() error }:
			walk(x.Inner())
		case interface{ WrappedErrors() []error }:
			for _, y := range x.WrappedErrors() {
				walk(y)
			}
		case interface{ Unwrap() []error }:
			for _, y := range x.Unwrap() {
				walk(y)
			}
		case interface{ Unwrap() error }:
			walk(x.Unwrap())
		}
		if x, ok := e.(interface{ WrappedErrors() []error }); ok {
			for _, y := range x.WrappedErrors() {
				walk(y)
			}
		}
	}
	walk(err)
	return
}

func causedBy(err, cause error) bool {
	for _, e := range causes(err) {
		if e == cause {
			return true
		}
	}
	return false
}

// wellFormed checks what holds for each error that is not nil.  It returns "" or what is wrong.
func wellFormed(err error) (wrong string) {
	if v := reflect.ValueOf(err); v.Kind() == reflect.Ptr && v.IsNil() {
		return "it is a nil pointer, but not nil"
	}
	if p := protect(func() {
		if len(strings.Trim(err.Error(), ": \n")) == 0 {
			wrong = "its message is empty"
		}
		if x, ok := err.(xmssmt.Error); ok {
			x.Locked()
			if in := x.Inner(); in != nil && in.Error() != "" && !strings.Contains(err.Error(), in.Error()) {
				wrong = fmt.Sprintf("its message %q does not tell its cause %q", err.Error(), in.Error())
			}
		}
	}); p != nil {
		return p.Error()
	}
	return
}

func TestC29_Storage(t *testing.T) {
	check(t, 4000, 40000, func(t *rapid.T) {
		p := genLife(t, 6, 1, 3, 1, 6)
		k := genKey(t, p)
		hist := []string{}
		fatalf := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("%s\nhistory of %v: %s", fmt.Sprintf(f, a...), p, strings.Join(hist, "; "))
		}
		var plan *faultPlan
		var injected []*injErr // all so far
		locked := false
		mem := newMemCtr()
		fault := func(op string, before bool) xmssmt.Error {
			if plan == nil || plan.fault(op, before) == nil {
				return nil
			}
			e := &injErr{s: fmt.Sprintf("failure %d of %s", len(injected), op), locked: locked}
			injected = append(injected, e)
			return e
		}
		mem.fault = fault
		// judge checks the outcome of an operation.  allowed: other causes that are
		// there; result: whether it returned something.
		judge := func(what string, err xmssmt.Error, result bool, want bool, reasons ...error) {
			t.Helper()
			eval()
			hist = append(hist, fmt.Sprintf("%s: %v", what, err))
			step("C29 %v %v", p, hist)
			if err == nil {
				if want && !result {
					fatalf("%s succeeded, but returned nothing", what)
				}
				return
			}
			if w := wellFormed(err); w != "" {
				fatalf("the error of %s: %s", what, w)
			}
			if result {
				fatalf("%s failed (%v), but returned something", what, err)
			}
			anyLocked, found := false, false
			for _, e := range injected {
				if causedBy(err, e) {
					found = true
					anyLocked = anyLocked || e.locked
				}
			}
			for _, e := range reasons {
				if e == nil || causedBy(err, e) {
					found = true
				}
			}
			if !found {
				fatalf("%s failed, but none of what went wrong %v %v is a cause of its error: %v", what, injected, reasons, err)
			}
			if err.Locked() != anyLocked {
				fatalf("Locked() of the error of %s is %v, its cause's: %v: %v", what, err.Locked(), anyLocked, err)
			}
			if len(injected) > 0 {
				label("failure of the storage reported")
			}
		}
		arm := func() {
			plan = nil
			if rapid.IntRange(0, 2).Draw(t, "faulty") > 0 {
				plan = genPlan(t)
				locked = rapid.IntRange(0, 2).Draw(t, "locked") == 0
			}
		}
		noPanic := func(what string, f func()) {
			t.Helper()
			if e := protect(f); e != nil {
				fatalf("%s: %v", what, e)
			}
		}
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		defer func() {
			if sk != nil {
				plan = nil
				protect(func() { sk.Close() })
			}
		}()
		open := func(create bool) {
			for i := 0; sk == nil; i++ {
				if i == 20 {
					plan = nil
				}
				// what is left of earlier failures does not count
				injected = nil
				mem = mem.reopened()
				mem.fault = fault
				if !create && rapid.IntRange(0, 3).Draw(t, "cacheLost") == 0 {
					mem.cache = nil
					hist = append(hist, "(cache lost)")
				}
				var err xmssmt.Error
				what := "LoadPrivateKeyFrom"
				var reasons []error
				if create {
					what = "DeriveInto"
					noPanic(what, func() { sk, pk, err = deriveInto(newCtx(t, p, 1), k, mem) })
				} else {
					if !mem.init {
						reasons = append(reasons, nil)
					}
					noPanic(what, func() { sk, pk, _, err = xmssmt.LoadPrivateKeyFrom(mem) })
				}
				judge(what, err, sk != nil || pk != nil, true, reasons...)
				if err != nil {
					arm()
					create = create || !mem.init
				}
			}
			mem.fault = fault
		}
		arm()
		open(true)
		hits := 0
		for i := rapid.IntRange(2, 16).Draw(t, "ops"); i > 0; i-- {
			if rapid.IntRange(0, 3).Draw(t, "arm") == 0 {
				quiesce()
				arm()
			}
			before := len(injected)
			op := pick(t, "op", "sign", 8, "badsource", 2, "borrow", 3, "borrowif", 1, "reopen", 2, "precompute", 1, "set", 1, "over", 1, "end", 1)
			full := []error{}
			if uint64(sk.SeqNo()) >= p.Max() {
				full = append(full, nil)
			}
			var err xmssmt.Error
			switch op {
			case "sign":
				var sig *xmssmt.Signature
				noPanic(op, func() { sig, err = sk.Sign(genShortMsg(t)) })
				judge("Sign", err, sig != nil, true, full...)
			case "badsource":
				var sig *xmssmt.Signature
				e := genErr(t)
				src := failsWith(t, genShortMsg(t), e)
				noPanic(op, func() { sig, err = sk.SignFrom(src) })
				if err == nil {
					fatalf("SignFrom succeeded although its source failed")
				}
				judge(fmt.Sprintf("SignFrom (source fails: %v)", e), err, sig != nil, true, append(full, e)...)
			case "borrow":
				a := genAmount(t, 5, p.Max()-min(p.Max(), uint64(sk.SeqNo())))
				if uint64(a) > p.Max()-min(p.Max(), uint64(sk.SeqNo())) {
					full = append(full, nil)
				}
				noPanic(op, func() { err = sk.BorrowExactly(a) })
				judge(fmt.Sprintf("BorrowExactly(%d)", a), err, false, false, full...)
			case "borrowif":
				a := uint32(rapid.IntRange(0, 5).Draw(t, "amount"))
				if uint64(a) > p.Max()-min(p.Max(), uint64(sk.SeqNo())) {
					full = append(full, nil)
				}
				noPanic(op, func() { err = sk.BorrowExactlyIfBelow(a, uint32(rapid.IntRange(0, 5).Draw(t, "threshold"))) })
				judge("BorrowExactlyIfBelow", err, false, false, full...)
			case "set":
				s := uint64(sk.SeqNo()) + rapid.Uint64Range(0, 3).Draw(t, "by")
				if s > p.Max() {
					continue
				}
				quiesce()
				noPanic(op, func() { sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(s)) })
				hist = append(hist, fmt.Sprintf("set %d", s))
			case "precompute":
				noPanic(op, func() { sk.EnableSubTreePrecomputation() })
				hist = append(hist, op)
			case "reopen", "over":
				noPanic("Close", func() { err = sk.Close() })
				judge("Close", err, false, false)
				sk, pk = nil, nil
				open(op == "over")
			case "end":
				// using a closed key
				noPanic("Close", func() { err = sk.Close() })
				judge("Close", err, false, false)
				if err == nil {
					injected = nil
					var sig *xmssmt.Signature
					noPanic("Sign", func() { sig, err = sk.Sign(nil) })
					if err == nil {
						fatalf("Sign succeeded after Close")
					}
					judge("Sign after Close", err, sig != nil, true, nil)
					noPanic("Close", func() { err = sk.Close() })
					judge("second Close", err, false, false, nil)
				}
				sk, pk = nil, nil
				open(false)
			}
			hits += max(0, len(injected)-before)
		}
		if hits > 0 {
			nontrivial(fmt.Sprintf("C29 %v %v", p, hist))
		}
	})
}

// Failures of the operating system, and locks.
func TestC29_Files(t *testing.T) {
	// someone else, who is alive, and someone who is not
	other := exec.Command("sleep", "100000")
	other.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := other.Start(); err != nil {
		infra("sleep: %v", err)
	}
	defer func() { other.Process.Kill(); other.Wait() }()
	gone := exec.Command("true")
	if err := gone.Run(); err != nil {
		infra("true: %v", err)
	}
	check(t, 2400, 24000, func(t *rapid.T) {
		p := genLife(t, 4, 1, 3, 1, 6)
		k := genKey(t, p)
		dir := tmpDir()
		defer rmDir(dir)
		path := filepath.Join(dir, "key")
		var holder *xmssmt.PrivateKey
		defer func() {
			if holder != nil {
				holder.Close()
			}
		}()
		exists := rapid.IntRange(0, 3).Draw(t, "exists") > 0
		if exists {
			sk, _, err := derive(newCtx(t, p, 1), k, path)
			if err != nil {
				t.Fatalf("create: %v", err)
			}
			if rapid.Bool().Draw(t, "used") {
				if _, err := sk.Sign(nil); err != nil {
					t.Fatalf("sign: %v", err)
				}
			}
			if err := sk.Close(); err != nil {
				t.Fatalf("Close: %v", err)
			}
		}
		mkdir := func(s string) {
			os.Remove(path + s)
			if err := os.MkdirAll(path+s+"/x", 0700); err != nil {
				infra("%v", err)
			}
		}
		wantLocked := false
		loads := exists // whether opening the key is to work
		creates := true // whether creating it is to work
		var causeOfLoad, causeOfCreate syscall.Errno
		trouble := pick(t, "trouble", "none", 1, "held here", 4, "held elsewhere", 4, "stale lock", 2, "directory missing", 2,
			"key is a directory", 1, "tmp is a directory", 2, "cache is a directory", 2, "lock is a directory", 1,
			"name too long", 1, "not a directory", 1, "loop", 1, "damaged", 3)
		fuzzy := false // any error will do
		switch trouble {
		case "held here":
			var err xmssmt.Error
			if exists {
				holder, _, _, err = xmssmt.LoadPrivateKey(path)
			} else {
				holder, _, err = derive(newCtx(t, p, 1), k, path)
			}
			if err != nil {
				t.Fatalf("open: %v", err)
			}
			exists, loads, creates, wantLocked = true, false, false, true
		case "held elsewhere":
			os.WriteFile(path+".lock", []byte(strconv.Itoa(other.Process.Pid)+"\n"), 0600)
			loads, creates, wantLocked = false, false, true
		case "stale lock":
			if syscall.Kill(gone.Process.Pid, 0) == nil {
				label("number of the dead process in use")
				return
			}
			os.WriteFile(path+".lock", []byte(strconv.Itoa(gone.Process.Pid)+"\n"), 0600)
		case "directory missing":
			path = filepath.Join(dir, "sub", "key")
			loads, creates = false, false
			causeOfLoad, causeOfCreate = syscall.ENOENT, syscall.ENOENT
		case "key is a directory":
			mkdir("")
			loads, creates = false, false
			causeOfLoad, causeOfCreate = syscall.EISDIR, syscall.EISDIR
		case "tmp is a directory":
			mkdir(".tmp")
			creates, causeOfCreate = false, syscall.EISDIR
		case "cache is a directory":
			mkdir(".cache")
			loads, creates = false, false
			causeOfLoad, causeOfCreate = syscall.EISDIR, syscall.EISDIR
		case "lock is a directory":
			mkdir(".lock")
			loads, creates = false, false
			causeOfLoad, causeOfCreate = syscall.EISDIR, syscall.EISDIR
			fuzzy = true
		case "name too long":
			path = filepath.Join(dir, strings.Repeat("k", 300))
			loads, creates = false, false
			causeOfLoad, causeOfCreate = syscall.ENAMETOOLONG, syscall.ENAMETOOLONG
		case "not a directory":
			os.WriteFile(filepath.Join(dir, "file"), nil, 0600)
			path = filepath.Join(dir, "file", "key")
			loads, creates = false, false
			causeOfLoad, causeOfCreate = syscall.ENOTDIR, syscall.ENOTDIR
		case "loop":
			os.Remove(path)
			os.Symlink("key", path)
			loads, creates = false, false
			fuzzy = true
		case "damaged":
			if !exists {
				return
			}
			b, _ := os.ReadFile(path)
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")]
			case 1:
				b[rapid.IntRange(0, 7).Draw(t, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
			case 2:
				copy(b[8:], expand(rapid.Uint64Range(1, 1<<40).Draw(t, "params"), 16))
				b[13] = 77 // no such D
			}
			os.WriteFile(path, b, 0600)
			loads, creates = false, false
			fuzzy = true
		}
		if exists && trouble == "directory missing" {
			exists = false
		}
		what := fmt.Sprintf("%v: %s (key exists: %v)", p, trouble, exists)
		step("C29 %s", what)
		judge := func(op string, err xmssmt.Error, result, should bool, cause syscall.Errno) bool {
			t.Helper()
			eval()
			if err == nil {
				if !should {
					if trouble == "damaged" && strings.HasPrefix(op, "create") {
						return true // allowed
					}
					t.Fatalf("%s: %s succeeded", what, op)
				}
				if !result {
					t.Fatalf("%s: %s succeeded, but returned nothing", what, op)
				}
				return true
			}
			if w := wellFormed(err); w != "" {
				t.Fatalf("%s: the error of %s: %s", what, op, w)
			}
			if result {
				t.Fatalf("%s: %s failed (%v), but returned something", what, op, err)
			}
			if should {
				t.Fatalf("%s: %s failed: %v", what, op, err)
			}
			if err.Locked() != wantLocked {
				t.Fatalf("%s: Locked() of the error of %s is %v: %v", what, op, err.Locked(), err)
			}
			// (that there is no key is another reason not to open it)
			if !fuzzy && cause != 0 && (exists || op != "LoadPrivateKey" && op != "Sign") {
				for _, e := range causes(err) {
					if e == error(cause) {
						return false
					}
				}
				t.Fatalf("%s: the cause (%v) of the failure of %s is not part of its error: %v", what, cause, op, err)
			}
			return false
		}
		closeKey := func(sk *xmssmt.PrivateKey) {
			if err := sk.Close(); err != nil {
				t.Fatalf("%s: Close: %v", what, err)
			}
		}
		alg := "XMSSMT-SHA2_10/5_192"
		if !isName(alg) {
			alg = "XMSSMT-SHA2_20/4_256"
		}
		for i := rapid.IntRange(1, 4).Draw(t, "ops"); i > 0; i-- {
			switch pick(t, "op", "load", 3, "sign", 3, "create", 2, "createmem", 1, "container", 2) {
			case "load":
				sk, pk, _, err := xmssmt.LoadPrivateKey(path)
				if judge("LoadPrivateKey", err, sk != nil || pk != nil, loads, causeOfLoad) {
					closeKey(sk)
				}
			case "sign":
				if exists && p.H <= 2 {
					continue // may be used up
				}
				if trouble == "tmp is a directory" && exists {
					// opens, but can not record the index
					sig, err := xmssmt.Sign(path, nil)
					judge("Sign", err, sig != nil, false, syscall.EISDIR)
					continue
				}
				sig, err := xmssmt.Sign(path, []byte("m"))
				judge("Sign", err, sig != nil, loads, causeOfLoad)
			case "create":
				sk, pk, err := derive(newCtx(t, p, 1), k, path)
				if judge("create", err, sk != nil || pk != nil, creates, causeOfCreate) {
					closeKey(sk)
					exists, loads = true, trouble != "cache is a directory"
				} else if trouble == "cache is a directory" {
					exists = true // the key itself may be there
				} else if trouble == "tmp is a directory" {
					label("not created")
				}
			case "createmem":
				if creates {
					continue // expensive
				}
				sk, pk, err := xmssmt.GenerateKeyPair(alg, path)
				if judge("create (GenerateKeyPair)", err, sk != nil || pk != nil, creates, causeOfCreate) {
					closeKey(sk)
					return
				}
			case "container":
				c, err := xmssmt.OpenFSPrivateKeyContainer(path)
				should := creates || trouble == "tmp is a directory" || trouble == "cache is a directory"
				if judge("OpenFSPrivateKeyContainer", err, c != nil, should, causeOfLoad) {
					if err := c.Close(); err != nil {
						t.Fatalf("%s: Close: %v", what, err)
					}
				}
			}
		}
		if holder != nil {
			// the holder is not affected
			err := holder.Close()
			holder = nil
			if err != nil {
				t.Fatalf("%s: Close of the holder: %v", what, err)
			}
			sk, _, _, err := xmssmt.LoadPrivateKey(path)
			if err != nil {
				t.Fatalf("%s: after the holder closed it: %v", what, err)
			}
			closeKey(sk)
		}
		nontrivial(fmt.Sprintf("C29 files %s", what))
		label("%s", trouble)
	})
}

// failsWith is a source that fails at some place.
func failsWith(t *rapid.T, msg []byte, e error) io.Reader {
	return &oddReader{data: msg, failAt: rapid.IntRange(0, len(msg)).Draw(t, "failAt"), err: e,
		errWith: rapid.Bool().Draw(t, "along")}
}

func isName(alg string) bool { return xmssmt.NewContextFromName(alg) != nil }

// Inputs that are refused.
func TestC29_Inputs(t *testing.T) {
	check(t, 6000, 60000, func(t *rapid.T) {
		p := genLife(t, 2, 1, 3, 1, 8)
		k := genKey(t, p)
		idx := genIndex(t, p)
		mem := memCtrFor(k, idx)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(mem)
		if err != nil {
			t.Fatalf("load: %v", err)
		}
		defer sk.Close()
		msg := genShortMsg(t)
		sig, err := sk.Sign(msg)
		if err != nil {
			t.Fatalf("sign: %v", err)
		}
		bs, bp := mustBytes(t, sig), mustBytes(t, pk)
		step("C29 inputs %v %d", p, idx)
		bad := func(what string, err error, result bool, cause error) {
			t.Helper()
			eval()
			if err == nil || reflect.ValueOf(err).Kind() == reflect.Ptr && reflect.ValueOf(err).IsNil() {
				t.Fatalf("%v: %s is accepted", p, what)
			}
			if w := wellFormed(err); w != "" {
				t.Fatalf("%v: the error of %s: %s", p, what, w)
			}
			if x, ok := err.(xmssmt.Error); ok && x.Locked() {
				t.Fatalf("%v: the error of %s claims something is locked: %v", p, what, err)
			}
			if result {
				t.Fatalf("%v: %s failed (%v), but returned something", p, what, err)
			}
			if cause != nil && !causedBy(err, cause) {
				t.Fatalf("%v: the cause (%v) of the failure of %s is not part of its error: %v", p, cause, what, err)
			}
		}
		good := func(what string, err error, verdict, want bool) {
			t.Helper()
			eval()
			if err != nil {
				t.Fatalf("%v: %s: %v", p, what, err)
			}
			if verdict != want {
				t.Fatalf("%v: %s: verdict %v", p, what, verdict)
			}
		}
		// (that the signature is wrong may be reported as an error as well)
		refused := func(what string, err xmssmt.Error, verdict bool) {
			t.Helper()
			eval()
			if verdict {
				t.Fatalf("%v: %s is accepted", p, what)
			}
			if err != nil {
				bad(what, err, verdict, nil)
			}
		}
		ok, e := pk.Verify(sig, msg)
		good("Verify", e, ok, true)
		ok, e = xmssmt.Verify(bp, bs, msg)
		good("Verify", e, ok, true)
		cause := genErr(t)
		kinds := ""
		for i := 0; i < 6; i++ {
			kind := pick(t, "input", "source", 3, "signature", 2, "wrong", 3, "key", 2, "name", 2, "params", 2, "other", 1, "seeds", 1, "text", 1)
			kinds += " " + kind
			switch kind {
			case "source":
				ok, e := pk.VerifyFrom(sig, failsWith(t, msg, cause))
				bad("a failing message source", e, ok, cause)
			case "signature":
				b := bs[:rapid.IntRange(0, len(bs)-1).Draw(t, "cut")]
				ok, e := xmssmt.Verify(bp, b, msg)
				bad("a truncated signature", e, ok, nil)
				var s xmssmt.Signature
				bad("a truncated signature", s.UnmarshalBinary(b), false, nil)
			case "key":
				b := bp[:rapid.IntRange(0, len(bp)-1).Draw(t, "cut")]
				ok, e := xmssmt.Verify(b, bs, msg)
				bad("a truncated public key", e, ok, nil)
				var s xmssmt.PublicKey
				bad("a truncated public key", s.UnmarshalBinary(b), false, nil)
			case "wrong":
				// A wrong signature is no error.
				b := append([]byte(nil), bs...)
				hdr := 4 + (p.H+7)/8
				b[rapid.IntRange(hdr, len(b)-1).Draw(t, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
				ok, e := xmssmt.Verify(bp, b, msg)
				refused("a wrong signature", e, ok)
				ok, e = pk.Verify(sig, append(msg[:len(msg):len(msg)], 'x'))
				refused("another message", e, ok)
			case "name":
				s := rapid.SampledFrom([]string{"", "XMSS", "XMSS-SHA2_10_257x", "XMSSMT-SHA2_10/3_256", "XMSSMT-SHA9_20/2_256",
					"XMSSMT-SHA2_20/0_256", "\x00", "xmssmt-sha2_20/2_256"}).Draw(t, "name")
				ctx, e := xmssmt.NewContextFromName2(s)
				bad(fmt.Sprintf("the name %q", s), e, ctx != nil, nil)
				if xmssmt.NewContextFromName(s) != nil {
					t.Fatalf("the name %q is accepted", s)
				}
				dir := tmpDir()
				sk, pk, e2 := xmssmt.GenerateKeyPair(s, filepath.Join(dir, "key"))
				bad(fmt.Sprintf("GenerateKeyPair with the name %q", s), e2, sk != nil || pk != nil, nil)
				es, _ := os.ReadDir(dir)
				if len(es) > 0 {
					t.Fatalf("GenerateKeyPair with the name %q left a file behind", s)
				}
				rmDir(dir)
			case "params":
				q := lib(p)
				switch rapid.IntRange(0, 5).Draw(t, "field") {
				case 0:
					q.N = rapid.SampledFrom([]uint32{0, 1, 8, 31, 33, 65, 1 << 31}).Draw(t, "n")
				case 1:
					q.WotsW = rapid.SampledFrom([]uint16{0, 1, 2, 3, 8, 15, 17, 255, 257, 65535}).Draw(t, "w")
				case 2:
					q.D = 0
				case 3:
					q.FullHeight, q.D = 7, 2
				case 4:
					q.Func = xmssmt.HashFunc(rapid.IntRange(3, 255).Draw(t, "func"))
				case 5:
					q.Prf = xmssmt.PrfConstruction(rapid.IntRange(2, 255).Draw(t, "prf"))
				}
				ctx, e := xmssmt.NewContext(q)
				bad(fmt.Sprintf("parameters %+v", q), e, ctx != nil, nil)
			case "other":
				q := p
				q.NIST = !q.NIST
				if q.H%2 == 1 && q.D == 1 {
					q = p
					q.H++
				}
				k2 := genKey(t, q)
				_ = k2
				opk := append([]byte(nil), bp...)
				x := lib(q)
				b, e0 := x.MarshalBinary()
				if e0 != nil {
					continue
				}
				copy(opk, b)
				ok, e := xmssmt.Verify(opk, bs, msg)
				refused("a key of another instance", e, ok)
			case "seeds":
				n := p.N
				l := []int{n, n, n}
				l[rapid.IntRange(0, 2).Draw(t, "which")] += rapid.SampledFrom([]int{-n, -1, 1, n}).Draw(t, "by")
				c := newMemCtr()
				sk, pk, e := newCtx(t, p, 1).DeriveInto(c, make([]byte, l[0]), make([]byte, l[1]), make([]byte, l[2]))
				bad("seeds of a wrong size", e, sk != nil || pk != nil, nil)
				if c.init {
					t.Fatalf("%v: DeriveInto with seeds of a wrong size altered the storage", p)
				}
			case "text":
				var q xmssmt.PublicKey
				tx, e := pk.MarshalText()
				if e != nil {
					t.Fatalf("MarshalText: %v", e)
				}
				i := rapid.IntRange(0, len(tx)-1).Draw(t, "at")
				b := append(append(append([]byte(nil), tx[:i]...), '!'), tx[i:]...)
				bad("a damaged text", q.UnmarshalText(b), false, nil)
			}
		}
		if !bytes.Equal(bs, mustBytes(t, sig)) {
			t.Fatalf("%v: the signature changed", p)
		}
		nontrivial(fmt.Sprintf("C29 inputs %v %d %v%s", p, idx, cause, kinds))
	})
}
