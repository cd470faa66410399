package props

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// A backend is where a key lives: it survives closing and losing the process.
type backend interface {
	// create derives the key; open loads it.
	create(ctx *xmssmt.Context, k *ref.Key) (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error)
	open() (*xmssmt.PrivateKey, *xmssmt.PublicKey, uint32, xmssmt.Error)
	// crash forgets the live key and leaves what a new process would find.
	crash(live *xmssmt.PrivateKey)
	// stored returns what is recorded durably.
	stored() (seqNo uint64, borrowed uint32, err error)
	// peek opens a copy of the stored state.
	peek() (*xmssmt.PrivateKey, *xmssmt.PublicKey, uint32, xmssmt.Error)
	// loseCache deletes or damages the cache; the key is not open.
	loseCache(t *rapid.T)
	done()
}

type fsBackend struct {
	dir  string
	path string
	n    int
	// rel: its path is given relative to a working directory, which is
	// another one later
	rel bool
}

// at calls f with the path, as it is to be given.
func (b *fsBackend) at(f func(path string)) {
	if !b.rel {
		f(b.path)
		return
	}
	wd, err := os.Getwd()
	if err != nil {
		infra("getwd: %v", err)
	}
	if err := os.Chdir(b.dir); err != nil {
		infra("chdir: %v", err)
	}
	defer func() {
		if err := os.Chdir(wd); err != nil {
			infra("chdir: %v", err)
		}
	}()
	f(filepath.Base(b.path))
}

func newFS() *fsBackend {
	b := &fsBackend{dir: tmpDir()}
	b.path = filepath.Join(b.dir, "key0")
	return b
}
func (b *fsBackend) create(ctx *xmssmt.Context, k *ref.Key) (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
	var sk *xmssmt.PrivateKey
	var pk *xmssmt.PublicKey
	var err xmssmt.Error
	b.at(func(path string) { sk, pk, err = derive(ctx, k, path) })
	return sk, pk, err
}
func (b *fsBackend) open() (*xmssmt.PrivateKey, *xmssmt.PublicKey, uint32, xmssmt.Error) {
	var sk *xmssmt.PrivateKey
	var pk *xmssmt.PublicKey
	var lost uint32
	var err xmssmt.Error
	b.at(func(path string) { sk, pk, lost, err = xmssmt.LoadPrivateKey(path) })
	return sk, pk, lost, err
}
func (b *fsBackend) crash(live *xmssmt.PrivateKey) {
	old := b.path
	b.n++
	b.path = filepath.Join(b.dir, fmt.Sprintf("key%d", b.n))
	copyKey(old, b.path)
	if live != nil {
		live.Close()
	}
	for _, s := range []string{"", ".cache", ".tmp", ".lock"} {
		os.Remove(old + s)
	}
}
func (b *fsBackend) stored() (uint64, uint32, error) {
	kf, err := readKeyFile(b.path)
	return kf.SeqNo, kf.Borrowed, err
}
func (b *fsBackend) peek() (*xmssmt.PrivateKey, *xmssmt.PublicKey, uint32, xmssmt.Error) {
	p := filepath.Join(b.dir, "peek")
	for _, s := range []string{"", ".cache", ".tmp", ".lock"} {
		os.Remove(p + s)
	}
	copyKey(b.path, p)
	return xmssmt.LoadPrivateKey(p)
}
func (b *fsBackend) loseCache(t *rapid.T) {
	damageCache(t, b.path+".cache", false)
}
func (b *fsBackend) done() { rmDir(b.dir) }

// damageCache removes, truncates or overwrites a cache file.
func damageCache(t *rapid.T, path string, contentsOnly bool) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return "absent"
	}
	kind := rapid.IntRange(0, 5).Draw(t, "cacheDamage")
	if contentsOnly {
		kind = 4 + kind%2
	}
	what := ""
	switch kind {
	case 0:
		os.Remove(path)
		return "deleted"
	case 1:
		n := rapid.IntRange(0, len(b)).Draw(t, "cut")
		if rapid.Bool().Draw(t, "cutAtPage") {
			n = n / 4096 * 4096
		}
		b = b[:n]
		what = "truncated"
	case 2:
		b = expand(rapid.Uint64().Draw(t, "junk"), rapid.IntRange(0, 20000).Draw(t, "junkLen"))
		what = "replaced by junk"
	case 3: // the header
		if len(b) < 17 {
			return "too short"
		}
		i := rapid.IntRange(0, 16).Draw(t, "at")
		b[i] = rapid.Byte().Draw(t, "val")
		what = "header altered"
	default: // contents of subtrees
		if len(b) < 4097 {
			return "no subtrees"
		}
		n := rapid.IntRange(1, 40).Draw(t, "nAlter")
		for j := 0; j < n; j++ {
			i := rapid.IntRange(4096, len(b)-1).Draw(t, "at")
			if kind == 5 && rapid.Bool().Draw(t, "early") {
				i = 4096 + i%4096%300
				if i >= len(b) {
					i = 4096
				}
			}
			b[i] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
		}
		what = "contents altered"
	}
	if err := os.WriteFile(path, b, 0600); err != nil {
		infra("write cache: %v", err)
	}
	return what
}

type memBackend struct {
	c *memCtr
}

func (b *memBackend) create(ctx *xmssmt.Context, k *ref.Key) (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
	b.c = newMemCtr()
	return deriveInto(ctx, k, b.c)
}
func (b *memBackend) open() (*xmssmt.PrivateKey, *xmssmt.PublicKey, uint32, xmssmt.Error) {
	b.c = b.c.reopened()
	return xmssmt.LoadPrivateKeyFrom(b.c)
}
func (b *memBackend) crash(live *xmssmt.PrivateKey) {
	c := b.c.reopened()
	if live != nil {
		live.Close()
	}
	b.c = c
}
func (b *memBackend) stored() (uint64, uint32, error) {
	if !b.c.init {
		return 0, 0, errors.New("not initialised")
	}
	return b.c.seqNo, b.c.lost, nil
}
func (b *memBackend) peek() (*xmssmt.PrivateKey, *xmssmt.PublicKey, uint32, xmssmt.Error) {
	return xmssmt.LoadPrivateKeyFrom(b.c.reopened())
}
func (b *memBackend) loseCache(t *rapid.T) {
	if rapid.Bool().Draw(t, "all") {
		b.c.cache = nil
		return
	}
	for _, buf := range b.c.cache {
		if len(buf) > 0 && rapid.Bool().Draw(t, "this") {
			buf[rapid.IntRange(0, len(buf)-1).Draw(t, "at")] ^= 0x10
		}
	}
}
func (b *memBackend) done() {}

// life is a key, with what is known about its history.
type life struct {
	t  *rapid.T
	p  P
	k  *ref.Key
	b  backend
	pk *xmssmt.PublicKey
	sk *xmssmt.PrivateKey // nil while closed
	// indices of the released signatures
	used map[uint64]bool
	next uint64 // one more than the largest of them
	hist []string
	// cached subtrees that were passed over (DangerousSetSeqNo)
	passed map[xmssmt.SubTreeAddress]bool
}

func (l *life) fatalf(f string, a ...interface{}) {
	l.t.Helper()
	l.t.Fatalf("%s\nhistory of %v: %s", fmt.Sprintf(f, a...), l.p, strings.Join(l.hist, "; "))
}

func (l *life) log(f string, a ...interface{}) {
	l.hist = append(l.hist, fmt.Sprintf(f, a...))
	if len(l.hist) > 400 {
		l.hist = l.hist[200:]
	}
	h := l.hist
	if len(h) > 12 {
		h = h[len(h)-12:]
	}
	step("%v: %s", l.p, strings.Join(h, "; "))
}

func newLife(t *rapid.T, p P, onDisk bool) *life {
	l := &life{t: t, p: p, k: genKey(t, p), used: map[uint64]bool{}}
	if onDisk {
		b := newFS()
		b.rel = rapid.IntRange(0, 3).Draw(t, "relativePath") == 0
		l.b = b
	} else {
		l.b = &memBackend{}
	}
	l.log("create")
	var err xmssmt.Error
	l.sk, l.pk, err = l.b.create(newCtx(t, p, 1), l.k)
	if err != nil {
		l.fatalf("create: %v", err)
	}
	same(t, "public key", mustBytes(t, l.pk), l.k.PK())
	return l
}

func (l *life) end() {
	if l.sk != nil {
		l.sk.Close()
		l.sk = nil
	}
	l.b.done()
}

// released records a signature that left the library.
func (l *life) released(idx uint64, sigb []byte, msg []byte) {
	l.t.Helper()
	// the index as everyone else sees it
	enc := uint64(0)
	for _, x := range sigb[4 : 4+l.p.IndexBytes()] {
		enc = enc<<8 | uint64(x)
	}
	if enc != idx {
		l.fatalf("signature %d is encoded with index %d", idx, enc)
	}
	if l.used[idx] {
		l.fatalf("index %d is used a second time", idx)
	}
	if idx < l.next {
		l.fatalf("index %d is released after index %d", idx, l.next-1)
	}
	if idx >= l.p.Max() {
		l.fatalf("index %d is beyond the capacity", idx)
	}
	if ok, err := xmssmt.Verify(l.k.PK(), sigb, msg); !ok {
		l.fatalf("the signature with index %d is refused: %v", idx, err)
	}
	l.used[idx] = true
	l.next = idx + 1
	eval()
}

// covered checks that what is stored is beyond everything released.
func (l *life) covered(when string) {
	l.t.Helper()
	seq, _, err := l.b.stored()
	if err != nil {
		l.fatalf("%s: %v", when, err)
	}
	if seq < l.next {
		l.fatalf("%s: index %d has been released, but the stored next index is %d", when, l.next-1, seq)
	}
}

// failingReader reports an error after some bytes.
func failingReader(t *rapid.T) io.Reader {
	return &oddReader{data: make([]byte, 400), failAt: rapid.SampledFrom([]int{0, 1, 100, 300}).Draw(t, "failAt"),
		err: genErr(t), errWith: rapid.Bool().Draw(t, "errWith")}
}
