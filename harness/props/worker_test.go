package props

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bwesterb/go-xmssmt"

	"verif/harness/ref"
)

// A worker is another process that runs commands on keys.  It is this test
// binary itself, with VERIF_WORKER set.

type cmdT struct {
	Op      string
	Path    string `json:",omitempty"`
	P       P
	Seeds   []string `json:",omitempty"` // pubSeed, skSeed, skPrf
	N       uint64   `json:",omitempty"`
	Msg     string   `json:",omitempty"` // hex
	Name    string   `json:",omitempty"`
	Threads int      `json:",omitempty"`
	Exist   bool     `json:",omitempty"`
}

type repT struct {
	Op       string
	OK       bool
	Err      string `json:",omitempty"`
	Locked   bool   `json:",omitempty"`
	SeqNo    uint64
	Borrowed uint32
	Lost     uint32
	PK       string `json:",omitempty"`
	Sig      string `json:",omitempty"`
	Out      []string
}

func deriveCmd(path string, k *ref.Key) cmdT {
	return cmdT{Op: "derive", Path: path, P: k.P, Threads: 1,
		Seeds: []string{hex.EncodeToString(k.PubSeed), hex.EncodeToString(k.SkSeed), hex.EncodeToString(k.SkPrf)}}
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

type workerState struct {
	sk *xmssmt.PrivateKey
	pk *xmssmt.PublicKey
}

func (w *workerState) run(c cmdT) (r repT) {
	r.Op = c.Op
	fail := func(err xmssmt.Error) bool {
		if err != nil {
			r.Err, r.Locked = err.Error(), err.Locked()
			if r.Err == "" {
				r.Err = "error"
			}
			return true
		}
		r.OK = true
		return false
	}
	if e := protect(func() {
		switch c.Op {
		case "derive", "generate":
			ctx, err := xmssmt.NewContext(lib(c.P))
			if fail(err) {
				return
			}
			r.OK = false
			ctx.Threads = c.Threads
			var sk *xmssmt.PrivateKey
			var pk *xmssmt.PublicKey
			if c.Op == "derive" {
				sk, pk, err = ctx.Derive(c.Path, unhex(c.Seeds[0]), unhex(c.Seeds[1]), unhex(c.Seeds[2]))
			} else {
				sk, pk, err = ctx.GenerateKeyPair(c.Path)
			}
			if fail(err) {
				return
			}
			w.sk, w.pk = sk, pk
		case "load":
			sk, pk, lost, err := xmssmt.LoadPrivateKey(c.Path)
			if fail(err) {
				return
			}
			w.sk, w.pk, r.Lost = sk, pk, lost
			w.sk.Context().Threads = 1
		case "sign":
			if w.sk == nil {
				r.Err = "no key"
				return
			}
			sig, err := w.sk.Sign(unhex(c.Msg))
			if fail(err) {
				return
			}
			b, e := sig.MarshalBinary()
			if e != nil {
				r.OK, r.Err = false, e.Error()
				return
			}
			r.Sig = hex.EncodeToString(b)
			r.SeqNo = uint64(sig.SeqNo())
			return
		case "signfail":
			if w.sk == nil {
				r.Err = "no key"
				return
			}
			_, err := w.sk.SignFrom(&oddReader{failAt: 0, err: errors.New("source failed")})
			fail(err)
		case "borrow":
			if w.sk == nil {
				r.Err = "no key"
				return
			}
			fail(w.sk.BorrowExactly(uint32(c.N)))
		case "precompute":
			if w.sk == nil {
				r.Err = "no key"
				return
			}
			w.sk.EnableSubTreePrecomputation()
			r.OK = true
		case "close":
			if w.sk == nil {
				r.Err = "no key"
				return
			}
			if !fail(w.sk.Close()) {
				w.sk = nil
			}
		case "fastsign":
			_, err := xmssmt.Sign(c.Path, unhex(c.Msg))
			fail(err)
			return
		case "held":
			// what is held for the directory once no key is open
			if w.sk != nil {
				if err := w.sk.Close(); err == nil || !strings.Contains(err.Error(), "already closed") {
					r.Err = "a key is open"
					return
				}
				w.sk = nil
			}
			r.Out = append(descriptors(c.Path), mappings(c.Path)...)
			for i := 0; ; i++ {
				st := libraryStacks()
				if st == nil {
					break
				}
				if i == 3000 {
					r.Out = append(r.Out, st...)
					break
				}
				time.Sleep(time.Duration(min(i, 10)) * time.Millisecond)
			}
			r.OK = true
			return
		case "vector":
			r.Out = vector(c)
			r.OK = true
			return
		default:
			r.Err = "unknown command"
		}
		if r.OK && w.sk != nil {
			r.SeqNo, r.Borrowed = uint64(w.sk.SeqNo()), w.sk.BorrowedSeqNos()
			b, _ := w.pk.MarshalBinary()
			r.PK = hex.EncodeToString(b)
		}
	}); e != nil {
		r.OK = false
		r.Err = "PANIC " + e.Error()
	}
	return
}

// runWorker is the main function of workers: commands come from VERIF_SCRIPT
// or standard input; results go to VERIF_LOG or standard output, each with one
// write.
func runWorker(mode string) {
	runtime.LockOSThread()
	if b := os.Getenv("VERIF_SCRATCH_DIR"); b != "" {
		var err error
		if scratch, err = os.MkdirTemp(b, "w-"); err != nil {
			infra("scratch: %v", err)
		}
	}
	in := io.Reader(os.Stdin)
	out := io.Writer(os.Stdout)
	if mode == "script" {
		b, err := os.ReadFile(os.Getenv("VERIF_SCRIPT"))
		if err != nil {
			infra("script: %v", err)
		}
		in = bytes.NewReader(b)
		f, err := os.OpenFile(os.Getenv("VERIF_LOG"), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0600)
		if err != nil {
			infra("log: %v", err)
		}
		out = f
	}
	var w workerState
	dec := json.NewDecoder(bufio.NewReaderSize(in, 1<<20))
	for {
		var c cmdT
		if err := dec.Decode(&c); err != nil {
			return
		}
		if c.Op == "exit" {
			os.Exit(0)
		}
		r := w.run(c)
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
	}
}

func binFor(variant string) string {
	if b := os.Getenv("VERIF_BIN_" + strings.ToUpper(variant)); b != "" {
		return b
	}
	if variant == "plain" {
		b, err := os.Executable()
		if err != nil {
			infra("executable: %v", err)
		}
		return b
	}
	return ""
}

func workerEnv(extra ...string) []string {
	var e []string
	for _, v := range os.Environ() {
		if strings.HasPrefix(v, "VERIF_WORKER=") || strings.HasPrefix(v, "VERIF_STATS=") || strings.HasPrefix(v, "GODEBUG=") ||
			strings.HasPrefix(v, "GOTRACEBACK=") {
			continue
		}
		e = append(e, v)
	}
	return append(e, extra...)
}

// peer is a worker one talks to.
type peer struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err bytes.Buffer
}

var peers sync.Map

func newPeer(variant string, env ...string) *peer {
	p := &peer{cmd: exec.Command(binFor(variant))}
	p.cmd.Env = workerEnv(append(env, "VERIF_WORKER=serve")...)
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: 0}
	p.cmd.Stderr = &p.err
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		infra("worker: %v", err)
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		infra("worker: %v", err)
	}
	p.out = bufio.NewReaderSize(o, 1<<16)
	if err = p.cmd.Start(); err != nil {
		infra("worker: %v", err)
	}
	return p
}

// do runs a command; the process may die of it.
func (p *peer) do(c cmdT) (r repT, err error) {
	b, _ := json.Marshal(c)
	if _, err = p.in.Write(append(b, '\n')); err != nil {
		return r, err
	}
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		p.cmd.Wait()
		return r, fmt.Errorf("the process died: %v: %s", p.cmd.ProcessState, firstLines(p.err.String(), 12))
	}
	if e := json.Unmarshal(line, &r); e != nil {
		return r, fmt.Errorf("reply %q", line)
	}
	return r, nil
}

// quit ends the process without closing its key; kill kills it.
func (p *peer) quit() {
	p.in.Close()
	p.cmd.Wait()
}
func (p *peer) kill() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// ---- scripts, possibly under strace ----

type scriptRun struct {
	Replies []repT
	Killed  bool
	Exit    int
	Stderr  string
	Trace   string // path
}

// runScript runs commands in a worker of its own in directory dir (which must
// exist).  straceArgs, if any, make it run under strace; the trace goes to
// dir/trace.
func runScript(dir string, cmds []cmdT, straceArgs []string, killAfter time.Duration) scriptRun {
	var sb bytes.Buffer
	for _, c := range cmds {
		b, _ := json.Marshal(c)
		sb.Write(append(b, '\n'))
	}
	script, logf, trace := filepath.Join(dir, "script"), filepath.Join(dir, "log"), filepath.Join(dir, "trace")
	if err := os.WriteFile(script, sb.Bytes(), 0600); err != nil {
		infra("script: %v", err)
	}
	os.Remove(logf)
	var cmd *exec.Cmd
	if straceArgs != nil {
		args := append([]string{"-f", "-qq", "-o", trace}, straceArgs...)
		args = append(args, binFor("plain"))
		cmd = exec.Command("strace", args...)
	} else {
		cmd = exec.Command(binFor("plain"))
	}
	cmd.Env = workerEnv("VERIF_WORKER=script", "VERIF_SCRIPT="+script, "VERIF_LOG="+logf, "GOMAXPROCS=2", "GOGC=off",
		"GODEBUG=asyncpreemptoff=1")
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		infra("worker: %v", err)
	}
	var timer *time.Timer
	if killAfter > 0 {
		timer = time.AfterFunc(killAfter, func() { cmd.Process.Kill() })
	}
	done := make(chan struct{})
	go func() {
		for i := 0; ; i++ {
			select {
			case <-done:
				return
			case <-time.After(2 * time.Second):
				step("waiting for a worker (%d)", i)
				if i > 300 {
					cmd.Process.Kill()
					infra("a worker does not end")
				}
			}
		}
	}()
	cmd.Wait()
	close(done)
	if timer != nil {
		timer.Stop()
	}
	res := scriptRun{Stderr: eb.String(), Trace: trace}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	res.Killed = ws.Signaled() && ws.Signal() == syscall.SIGKILL
	res.Exit = ws.ExitStatus()
	b, _ := os.ReadFile(logf)
	for _, line := range bytes.Split(b, []byte("\n")) {
		var r repT
		if json.Unmarshal(line, &r) == nil && r.Op != "" {
			res.Replies = append(res.Replies, r)
		}
	}
	return res
}

var straceOnce sync.Once
var straceOK bool

// haveStrace tells whether processes can be traced here.
func haveStrace() bool {
	straceOnce.Do(func() {
		d := tmpDir()
		defer rmDir(d)
		out := filepath.Join(d, "t")
		cmd := exec.Command("strace", "-f", "-qq", "-o", out, "-e", "trace=exit_group", "true")
		err := cmd.Run()
		b, _ := os.ReadFile(out)
		straceOK = err == nil && bytes.Contains(b, []byte("exit_group"))
	})
	return straceOK
}
