package props

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C24: an index is durable on disk before its signature is released.

// A model of a disk that may lose, in a power failure, everything that was not
// synced.  It is fed with the system calls of a process.

// mInode is a file.  hist are the contents it went through since it was last
// synced, beginning with the synced contents.
type mInode struct {
	hist [][]byte
	// lazy: when the contents became larger or smaller, the size may be
	// durable without the data.
	resized bool
	mapped  bool
}

func (n *mInode) now() []byte { return n.hist[len(n.hist)-1] }

// possible lists what the file may contain after a power failure.
func (n *mInode) possible() [][]byte {
	out := append([][]byte(nil), n.hist...)
	if n.resized {
		cur := n.now()
		out = append(out, make([]byte, len(cur)), []byte{})
		if len(cur) > 1 {
			out = append(out, cur[:len(cur)/2], cur[:len(cur)-1])
		}
	}
	return out
}

func (n *mInode) set(b []byte) {
	if len(b) != len(n.now()) {
		n.resized = true
	}
	n.hist = append(n.hist, b)
}

func (n *mInode) synced() {
	n.hist = n.hist[len(n.hist)-1:]
	n.resized = false
}

type mFd struct {
	ino  *mInode
	dir  string // if it is a directory
	pos  int
	app  bool
	sync bool
	path string
}

type mDisk struct {
	root string // only files below matter
	// entries of the directories: what they may be after a power failure (nil:
	// absent); the last one is what they are now
	names map[string][]*mInode
	fds   map[int]*mFd
	// what happened last
	last    string
	unknown string // something the model can not follow
}

func newDisk(root string) *mDisk {
	return &mDisk{root: root, names: map[string][]*mInode{}, fds: map[int]*mFd{}}
}

func (d *mDisk) get(path string) *mInode {
	h := d.names[path]
	if len(h) == 0 {
		return nil
	}
	return h[len(h)-1]
}

func (d *mDisk) link(path string, n *mInode) {
	h := d.names[path]
	if len(h) == 0 {
		h = []*mInode{nil}
	}
	d.names[path] = append(h, n)
}

var (
	callRe  = regexp.MustCompile(`^(\d+) +(\w+)\((.*)\) += (-?\d+|\?)(.*)$`)
	unfinRe = regexp.MustCompile(`^(\d+) +(\w+)\((.*) <unfinished \.\.\.>$`)
	resumRe = regexp.MustCompile(`^(\d+) +<\.\.\. (\w+) resumed>(.*)$`)
	strRe   = regexp.MustCompile(`"((?:\\x[0-9a-f]{2})*)"(\.\.\.)?`)
)

func unescape(s string) []byte {
	b, err := hex.DecodeString(strings.ReplaceAll(s, `\x`, ""))
	if err != nil {
		infra("trace: %v", err)
	}
	return b
}

type sysCall struct {
	name string
	strs [][]byte
	args string // with strings replaced by $
	ret  int
	fail bool
}

// readTrace reads a trace made with -xx.
func readTrace(path string) (calls []sysCall) {
	f, err := os.Open(path)
	if err != nil {
		infra("trace: %v", err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	begun := map[string]string{}
	for sc.Scan() {
		line := sc.Text()
		if m := unfinRe.FindStringSubmatch(line); m != nil {
			begun[m[1]] = m[1] + " " + m[2] + "(" + m[3]
			continue
		}
		if m := resumRe.FindStringSubmatch(line); m != nil {
			line = begun[m[1]] + m[3]
			delete(begun, m[1])
		}
		m := callRe.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		c := sysCall{name: m[2]}
		for _, s := range strRe.FindAllStringSubmatch(m[3], -1) {
			if s[2] != "" {
				infra("trace: a string was cut short")
			}
			c.strs = append(c.strs, unescape(s[1]))
		}
		c.args = strRe.ReplaceAllString(m[3], "$$")
		c.ret, err = strconv.Atoi(m[4])
		c.fail = err != nil || c.ret < 0
		calls = append(calls, c)
	}
	return
}

func (c sysCall) arg(i int) string {
	a := strings.Split(c.args, ", ")
	if i >= len(a) {
		return ""
	}
	return a[i]
}
func (c sysCall) num(i int) int {
	n, err := strconv.ParseInt(c.arg(i), 0, 64)
	if err != nil {
		return -1
	}
	return int(n)
}

func (d *mDisk) mine(path string) bool { return strings.HasPrefix(path, d.root+"/") }

// apply updates the model.
func (d *mDisk) apply(c sysCall) {
	d.last = c.name
	if c.fail {
		d.last += " (failed)"
		return
	}
	fd := d.fds[c.num(0)]
	write := func(fd *mFd, b []byte, at int) {
		if fd.ino == nil {
			return
		}
		cur := fd.ino.now()
		n := append([]byte(nil), cur...)
		if len(n) < at+len(b) {
			n = append(n, make([]byte, at+len(b)-len(n))...)
		}
		copy(n[at:], b)
		fd.ino.set(n)
		if fd.sync {
			fd.ino.synced()
		}
	}
	switch c.name {
	case "openat", "open", "creat":
		i := 1
		if c.name != "openat" {
			i = 0
		}
		path := string(c.strs[0])
		flags := c.arg(i + 1)
		if c.name == "creat" {
			flags = "O_CREAT|O_TRUNC|O_WRONLY"
		}
		n := &mFd{path: path, app: strings.Contains(flags, "O_APPEND"),
			sync: strings.Contains(flags, "O_SYNC") || strings.Contains(flags, "O_DSYNC")}
		d.fds[c.ret] = n
		if path == d.root {
			n.dir = path
			return
		}
		if !d.mine(path) {
			return
		}
		ino := d.get(path)
		if ino == nil {
			ino = &mInode{hist: [][]byte{{}}}
			d.link(path, ino)
		} else if strings.Contains(flags, "O_TRUNC") {
			ino.set([]byte{})
		}
		n.ino = ino
		d.last += " " + filepath.Base(path)
	case "close":
		delete(d.fds, c.num(0))
	case "dup", "dup2", "dup3":
		d.fds[c.ret] = fd
	case "fcntl":
		if strings.Contains(c.arg(1), "F_DUPFD") {
			d.fds[c.ret] = fd
		}
	case "write", "writev", "pwrite64", "pwritev", "pwritev2":
		if fd == nil || fd.ino == nil {
			return
		}
		b := bytes.Join(c.strs, nil)
		if c.ret < len(b) {
			b = b[:c.ret]
		}
		d.last += " " + filepath.Base(fd.path)
		if c.name == "pwrite64" {
			write(fd, b, c.num(3))
			return
		}
		if c.name == "pwritev" || c.name == "pwritev2" {
			d.unknown = c.name
			return
		}
		if fd.app {
			fd.pos = len(fd.ino.now())
		}
		write(fd, b, fd.pos)
		fd.pos += len(b)
	case "lseek":
		if fd != nil {
			fd.pos = c.ret
		}
	case "read":
		if fd != nil {
			fd.pos += c.ret
		}
	case "ftruncate", "fallocate":
		if fd == nil || fd.ino == nil {
			return
		}
		n := c.num(1)
		if c.name == "fallocate" {
			if n = c.num(2) + c.num(3); n < len(fd.ino.now()) {
				return
			}
		}
		d.trunc(fd.ino, n)
	case "truncate":
		if ino := d.get(string(c.strs[0])); ino != nil {
			d.trunc(ino, c.num(1))
		}
	case "fsync", "fdatasync":
		if fd == nil {
			return
		}
		d.last += " " + filepath.Base(fd.path)
		if fd.dir != "" {
			for p, h := range d.names {
				d.names[p] = h[len(h)-1:]
			}
		} else if fd.ino != nil {
			fd.ino.synced()
		}
	case "sync", "syncfs":
		for p, h := range d.names {
			d.names[p] = h[len(h)-1:]
			if n := d.get(p); n != nil {
				n.synced()
			}
		}
	case "rename", "renameat", "renameat2":
		from, to := string(c.strs[0]), string(c.strs[1])
		d.last += " " + filepath.Base(from)
		if !d.mine(from) && !d.mine(to) {
			return
		}
		a, b := d.get(from), d.get(to)
		d.link(to, a)
		if strings.Contains(c.args, "RENAME_EXCHANGE") {
			d.link(from, b)
		} else {
			d.link(from, nil)
		}
	case "link", "linkat":
		from, to := string(c.strs[0]), string(c.strs[1])
		if d.mine(to) {
			d.link(to, d.get(from))
		}
	case "symlink", "symlinkat":
		if to := string(c.strs[1]); d.mine(to) {
			d.unknown = "symlink"
		}
	case "unlink", "unlinkat":
		if p := string(c.strs[0]); d.mine(p) {
			d.link(p, nil)
		}
	case "mmap":
		if f := d.fds[c.num(4)]; f != nil && f.ino != nil && strings.Contains(c.arg(3), "MAP_SHARED") && strings.Contains(c.arg(2), "PROT_WRITE") {
			f.ino.mapped = true
		}
	case "copy_file_range", "sendfile":
		d.unknown = c.name
	}
}

func (d *mDisk) trunc(ino *mInode, n int) {
	if n > 1<<24 {
		d.unknown = "huge file"
		return
	}
	b := make([]byte, n)
	copy(b, ino.now())
	ino.set(b)
}

const diskCalls = alterCalls + ",lseek,read,dup,dup2,dup3,fcntl,sync,syncfs"

func TestC24_PowerFailure(t *testing.T) {
	if !haveStrace() {
		infra("strace does not work here")
	}
	check(t, 4800, 24000, func(t *rapid.T) {
		p := genLife(t, 1, 1, 4, 2, 9)
		k := genKey(t, p)
		first := deriveCmd("", k)
		if rapid.IntRange(0, 4).Draw(t, "generate") == 0 {
			first.Op = "generate"
		}
		ops := append([]cmdT{first}, genOps(t, p, 8)...)
		var k0 = k
		if rapid.IntRange(0, 4).Draw(t, "over") == 0 {
			// over an older key
			k0 = genKey(t, p)
			ops = append([]cmdT{deriveCmd("", k0), {Op: "sign"}, {Op: "close"}}, ops...)
		}
		args := []string{"-xx", "-s", "1000000", "-e", "trace=" + diskCalls}
		fault := ""
		if rapid.Bool().Draw(t, "fault") {
			// something fails at some time
			call := pick(t, "call", "fsync", 5, "renameat", 2, "write", 2, "openat", 1, "close", 1)
			n := rapid.IntRange(1, 12).Draw(t, "when")
			if call == "openat" || call == "close" {
				n += 12
			}
			e := pick(t, "errno", "EIO", 2, "ENOSPC", 1)
			fault = fmt.Sprintf("inject=%s:error=%s:when=%d", call, e, n)
			switch rapid.IntRange(0, 3).Draw(t, "repeat") {
			case 0:
				fault += "+"
			case 1:
				fault += "+2"
			}
			args = append(args, "-e", fault)
		}
		root := tmpDir()
		defer rmDir(root)
		os.Mkdir(filepath.Join(root, "k"), 0700)
		path := filepath.Join(root, "k", "key")
		l := newCrashLife(t, p, k)
		l.log("%s %s", opNames(ops), fault)
		r := runScript(root, withPath(ops, path), args, 0)
		if r.Exit != 0 || r.Killed {
			if fault != "" && len(r.Replies) == 0 {
				// the fault struck the start of the process itself
				label("process did not start")
				return
			}
			l.fatalf("the process ended with status %d: %s", r.Exit, firstLines(r.Stderr, 30))
		}
		d := newDisk(filepath.Join(root, "k"))
		logf := filepath.Join(root, "log")
		calls := readTrace(r.Trace)
		reply := 0
		next := uint64(0) // indices below have been released
		created := 0
		pk := ""
		seen := map[string]bool{}
		states := 0
		for _, c := range calls {
			logged := false
			if fd := d.fds[c.num(0)]; (c.name == "write") && fd != nil && fd.path == logf {
				logged = true
				if reply >= len(ops) {
					infra("log: too many replies")
				}
				op := ops[reply].Op
				if c.fail {
					// the reply got lost; a signature did not leave the process
					if op == "derive" || op == "generate" {
						created = 0
					}
				} else {
					var rep repT
					b := bytes.Join(c.strs, nil)
					if c.ret != len(b) || json.Unmarshal(b, &rep) != nil || rep.Op != op {
						infra("log: %q", b)
					}
					if strings.HasPrefix(rep.Err, "PANIC") {
						l.fatalf("%s: %s", rep.Op, rep.Err)
					}
					switch rep.Op {
					case "derive", "generate":
						created = 0 // nothing is promised any more
						if rep.OK {
							created = 1
							pk = rep.PK
							next = 0
							seen = map[string]bool{}
						}
					case "sign":
						if rep.OK {
							next = rep.SeqNo + 1
						}
					}
				}
				reply++
				// from the beginning of a creation to its end, nothing is promised
				// here (C27 is about that)
				if reply < len(ops) && (ops[reply].Op == "derive" || ops[reply].Op == "generate") {
					created = 0
				}
			}
			d.apply(c)
			if d.unknown != "" {
				label("not followed: %s", d.unknown)
				return
			}
			if created == 0 {
				continue
			}
			// all that may be found now
			var cands []*mInode
			for _, n := range d.names[path] {
				cands = append(cands, n)
			}
			when := d.last
			if logged {
				when = "release"
			}
			for _, n := range cands {
				if n == nil {
					l.fatalf("power failure after %s (command %d): there may be no key file", when, reply)
				}
				if n.mapped {
					label("not followed: mapped key file")
					return
				}
				for _, b := range n.possible() {
					id := string(b) + fmt.Sprint(next)
					if seen[id] {
						continue
					}
					seen[id] = true
					states++
					eval()
					dir := tmpDir()
					if err := os.WriteFile(filepath.Join(dir, "key"), b, 0600); err != nil {
						infra("write: %v", err)
					}
					var sk *xmssmt.PrivateKey
					var pk2 *xmssmt.PublicKey
					var err xmssmt.Error
					l.noPanic("opening after a power failure", func() { sk, pk2, _, err = xmssmt.LoadPrivateKey(filepath.Join(dir, "key")) })
					if err != nil {
						l.fatalf("power failure after %s (command %d): the key file may be one that can not be opened: %v: %d bytes %x", when, reply, err, len(b), b)
					}
					if hex.EncodeToString(mustBytes(t, pk2)) != pk {
						l.fatalf("power failure after %s (command %d): another public key", when, reply)
					}
					if s := uint64(sk.SeqNo()); s < next {
						l.fatalf("power failure after %s (command %d): the key may continue at index %d, but index %d has been released", when, reply, s, next-1)
					}
					sk.Close()
					rmDir(dir)
				}
			}
		}
		if states > 1 {
			nontrivial(fmt.Sprintf("C24 %v %v: %d possible states", p, l.hist, states))
			label("states after a power failure: %d-%d", states/8*8, states/8*8+7)
		}
		if fault != "" {
			label("with a failing %s", strings.SplitN(fault, ":", 2)[0])
		}
	})
}
