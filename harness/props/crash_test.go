package props

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// System calls that alter files, and others around which a process may be
// killed or made to fail.
const alterCalls = "openat,open,creat,write,pwrite64,writev,pwritev,pwritev2,ftruncate,truncate,rename,renameat,renameat2," +
	"fsync,fdatasync,sync_file_range,mmap,munmap,msync,unlink,unlinkat,link,linkat,symlink,symlinkat,fallocate," +
	"copy_file_range,sendfile,mkdir,mkdirat,close"

// killAt returns the arguments by which strace kills the process as it enters
// a system call: the n-th by that name.
func killAt(c tracedCall) []string {
	return []string{"-y", "-e", "trace=" + alterCalls, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", c.name, c.nth)}
}

var traceLine = regexp.MustCompile(`^(\d+) +(\w+)\(`)

// tracedCall is the nth system call of some name by the main thread.
type tracedCall struct {
	name string
	nth  int
	line string
}

// tracedCalls lists, of a trace, the system calls of the main thread since it
// opened the script.
func tracedCalls(trace string) (calls []tracedCall) {
	f, err := os.Open(trace)
	if err != nil {
		infra("trace: %v", err)
	}
	defer f.Close()
	n := map[string]map[string]int{}
	main := ""
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		m := traceLine.FindStringSubmatch(sc.Text())
		if m == nil {
			continue
		}
		if n[m[1]] == nil {
			n[m[1]] = map[string]int{}
		}
		n[m[1]][m[2]]++
		if main == "" && strings.Contains(sc.Text(), "/script\"") {
			main = m[1]
		} else if m[1] == main {
			calls = append(calls, tracedCall{m[2], n[main][m[2]], sc.Text()})
		}
	}
	return
}

// what describes a traced call.
func (c tracedCall) what() string {
	for _, f := range []string{"key.tmp", "key.cache", "key.lock", "key\"", "key>", "/log", "/k\"", "/k>"} {
		if strings.Contains(c.line, f) {
			return c.name + " " + strings.Trim(f, "/\">")
		}
	}
	return c.name
}

// lastCall describes the last line of a trace.
func lastCall(trace string) string {
	b, _ := os.ReadFile(trace)
	l := strings.Split(strings.TrimSpace(string(b)), "\n")
	for i := len(l) - 1; i >= 0; i-- {
		if m := traceLine.FindStringSubmatch(l[i]); m != nil {
			return tracedCall{name: m[2], line: l[i]}.what()
		}
	}
	return "?"
}

// choose picks a call: any, or any of a kind.
func choose(calls []tracedCall, at uint32) tracedCall {
	if at%2 == 0 {
		kinds := map[string][]tracedCall{}
		for _, c := range calls {
			kinds[c.what()] = append(kinds[c.what()], c)
		}
		var names []string
		for n := range kinds {
			names = append(names, n)
		}
		sort.Strings(names)
		calls = kinds[names[int(at>>1)%len(names)]]
		at = (at >> 1) / uint32(len(names))
	} else {
		at >>= 1
	}
	return calls[int(at)%len(calls)]
}

// spread draws a number of which all values are about as likely.
func spread(t *rapid.T, name string) uint32 {
	return uint32(rapid.Uint64().Draw(t, name) * 0x9e3779b97f4a7c15 >> 32)
}

// opT is one generated step of a script.
func genOps(t *rapid.T, p P, max int) (ops []cmdT) {
	n := rapid.IntRange(1, max).Draw(t, "nOps")
	for i := 0; i < n; i++ {
		switch pick(t, "op", "sign", 8, "signs", 2, "borrow", 3, "signfail", 1, "precompute", 1, "reopen", 1) {
		case "sign":
			ops = append(ops, cmdT{Op: "sign", Msg: hex.EncodeToString([]byte{byte(i)})})
		case "signs":
			for j := rapid.IntRange(2, 1+1<<uint(min(p.TH(), 4))).Draw(t, "many"); j > 0; j-- {
				ops = append(ops, cmdT{Op: "sign", Msg: "6d"})
			}
		case "borrow":
			ops = append(ops, cmdT{Op: "borrow", N: uint64(rapid.IntRange(0, 5).Draw(t, "amount"))})
		case "reopen":
			ops = append(ops, cmdT{Op: "close"}, cmdT{Op: "load"})
		default:
			ops = append(ops, cmdT{Op: pick(t, "op2", "signfail", 1, "precompute", 1)})
		}
	}
	if rapid.Bool().Draw(t, "close") {
		ops = append(ops, cmdT{Op: "close"})
	}
	return
}

func opNames(ops []cmdT) string {
	var s []string
	for _, o := range ops {
		x := o.Op
		if o.Op == "borrow" {
			x += fmt.Sprint(o.N)
		}
		s = append(s, x)
	}
	return strings.Join(s, ",")
}

func withPath(ops []cmdT, path string) []cmdT {
	r := append([]cmdT(nil), ops...)
	for i := range r {
		r[i].Path = path
	}
	return r
}

// absorb takes note of what a worker reported.  It returns whether the first
// command (creation or opening) returned.
func (l *life) absorb(cmds []cmdT, reps []repT, what string) (opened bool) {
	l.t.Helper()
	for i, r := range reps {
		if i >= len(cmds) || r.Op != cmds[i].Op {
			l.fatalf("%s: harness: reply %d is %q", what, i, r.Op)
		}
		if strings.HasPrefix(r.Err, "PANIC") {
			l.fatalf("%s: %s: %s", what, r.Op, r.Err)
		}
		switch r.Op {
		case "derive", "generate", "load":
			if !r.OK {
				l.fatalf("%s: %s: %s", what, r.Op, r.Err)
			}
			opened = true
			if r.PK != hex.EncodeToString(l.k.PK()) {
				l.fatalf("%s: %s: another public key", what, r.Op)
			}
			if r.SeqNo < l.next {
				l.fatalf("%s: %s: next index %d, but index %d has been used", what, r.Op, r.SeqNo, l.next-1)
			}
		case "sign":
			if !r.OK {
				if l.next < l.p.Max() && !strings.Contains(r.Err, "unused signatures") {
					l.fatalf("%s: sign: %s", what, r.Err)
				}
				continue
			}
			l.released(r.SeqNo, unhex(r.Sig), unhex(cmds[i].Msg))
		}
	}
	return
}

// deadWorkersLock tells whether a refusal to open may be due to the number of
// the dead process being in use by another one.
func deadWorkersLock(path string) bool {
	b, err := os.ReadFile(path + ".lock")
	if err != nil {
		return false
	}
	pid, err := strconv.Atoi(strings.TrimSpace(string(b)))
	return err == nil && pid > 0 && syscall.Kill(pid, 0) == nil
}

// restart opens the key after its process was lost.  created tells whether
// creating it had returned.  It returns nil if no key had been stored (and
// creates the key), or if nothing can be said.
func (l *life) restart(path string, created bool, what string) *xmssmt.PrivateKey {
	l.t.Helper()
	t := l.t
	var sk *xmssmt.PrivateKey
	var pk *xmssmt.PublicKey
	var err xmssmt.Error
	l.noPanic("opening after "+what, func() { sk, pk, _, err = xmssmt.LoadPrivateKey(path) })
	if err != nil {
		if err.Locked() && deadWorkersLock(path) {
			label("inconclusive lock")
			return nil
		}
		if created {
			l.fatalf("%s: the key can not be opened: %v", what, err)
		}
		if _, e := os.Lstat(path); e == nil {
			b, _ := os.ReadFile(path)
			l.fatalf("%s: there is a key file, but it can not be opened: %v: %x", what, err, b)
		}
		if err.Locked() {
			l.fatalf("%s: nobody holds the key, but it is locked", what)
		}
		label("no key stored yet")
		sk, pk, err = derive(newCtx(t, l.p, 1), l.k, path)
		if err != nil {
			l.fatalf("%s: no key was stored, but it can not be created either: %v", what, err)
		}
	}
	same(t, "public key after "+what, mustBytes(t, pk), l.k.PK())
	sk.Context().Threads = 1
	if s := uint64(sk.SeqNo()); s < l.next || s > l.p.Max() {
		l.fatalf("%s: the next index is %d, but index %d has been released (capacity %d)", what, s, l.next-1, l.p.Max())
	}
	return sk
}

// signSome makes up to n signatures.
func (l *life) signSome(sk *xmssmt.PrivateKey, n int, what string) {
	l.t.Helper()
	for i := 0; i < n && uint64(sk.SeqNo()) < l.p.Max(); i++ {
		msg := []byte{byte(i), 7}
		var sig *xmssmt.Signature
		var err xmssmt.Error
		l.noPanic("Sign", func() { sig, err = sk.Sign(msg) })
		if err != nil {
			l.fatalf("%s: Sign: %v", what, err)
		}
		b := mustBytes(l.t, sig)
		l.released(uint64(sig.SeqNo()), b, msg)
	}
}

func newCrashLife(t *rapid.T, p P, k *ref.Key) *life {
	return &life{t: t, p: p, k: k, used: map[uint64]bool{}, b: &fsBackend{}}
}

// fork copies what is known, for one of several futures.
func (l *life) fork() *life {
	n := *l
	n.used = map[uint64]bool{}
	for i := range l.used {
		n.used[i] = true
	}
	n.hist = append([]string(nil), l.hist...)
	return &n
}

// ---- snapshots of a running worker ----

type snapshot struct {
	replies []repT
	at      time.Duration
}

// takeSnapshots runs commands in a worker and stops it at the given times; each
// time, keep is called to copy the files.
func takeSnapshots(dir string, cmds []cmdT, delays []time.Duration, keep func(i int, s snapshot)) (whole []repT, exit string) {
	var sb bytes.Buffer
	for _, c := range cmds {
		b, _ := json.Marshal(c)
		sb.Write(append(b, '\n'))
	}
	script, logf := filepath.Join(dir, "script"), filepath.Join(dir, "log")
	if err := os.WriteFile(script, sb.Bytes(), 0600); err != nil {
		infra("script: %v", err)
	}
	removeFile(logf)
	errf, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		infra("stderr: %v", err)
	}
	defer errf.Close()
	null, _ := os.Open("/dev/null")
	defer null.Close()
	proc, err := os.StartProcess(binFor("plain"), []string{"worker"}, &os.ProcAttr{
		Dir:   dir,
		Env:   workerEnv("VERIF_WORKER=script", "VERIF_SCRIPT="+script, "VERIF_LOG="+logf, "GOMAXPROCS=2"),
		Files: []*os.File{null, errf, errf},
	})
	if err != nil {
		infra("worker: %v", err)
	}
	pid := proc.Pid
	replies := func() (out []repT) {
		b, _ := os.ReadFile(logf)
		for _, line := range bytes.Split(b, []byte("\n")) {
			var r repT
			if json.Unmarshal(line, &r) == nil && r.Op != "" {
				out = append(out, r)
			}
		}
		return
	}
	// the script is being read once the log exists
	for i := 0; ; i++ {
		if _, err := os.Stat(logf); err == nil {
			break
		}
		if i > 20000 {
			syscall.Kill(pid, syscall.SIGKILL)
			infra("a worker does not start")
		}
		time.Sleep(200 * time.Microsecond)
	}
	start := time.Now()
	var ws syscall.WaitStatus
	wait := func(opt int) int {
		for {
			r, err := syscall.Wait4(pid, &ws, opt, nil)
			if err == syscall.EINTR {
				continue
			}
			if err != nil {
				infra("wait: %v", err)
			}
			return r
		}
	}
	ended := false
	for i, d := range delays {
		time.Sleep(d)
		syscall.Kill(pid, syscall.SIGSTOP)
		wait(syscall.WUNTRACED)
		if !ws.Stopped() {
			ended = true
			break
		}
		keep(i, snapshot{replies(), time.Since(start)})
		syscall.Kill(pid, syscall.SIGCONT)
		step("snapshot %d", i)
	}
	for i := 0; !ended; i++ {
		if wait(syscall.WNOHANG) == pid {
			break
		}
		time.Sleep(500 * time.Microsecond)
		if i%2000 == 1999 {
			step("waiting for a worker (%d)", i)
		}
		if i > 600*2000 {
			syscall.Kill(pid, syscall.SIGKILL)
			infra("a worker does not end")
		}
	}
	proc.Release()
	if ws.Exited() && ws.ExitStatus() == 0 {
		return replies(), ""
	}
	b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	return replies(), fmt.Sprintf("exit %d signal %v: %s", ws.ExitStatus(), ws.Signal(), firstLines(string(b), 30))
}
