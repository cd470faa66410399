package props

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/iotest"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

type P = ref.Params

// lib converts the parameters to the library's type.
func lib(p P) xmssmt.Params {
	r := xmssmt.Params{Func: xmssmt.HashFunc(p.Func), N: uint32(p.N), FullHeight: uint32(p.H),
		D: uint32(p.D), WotsW: uint16(p.W), Prf: xmssmt.RFC}
	if p.NIST {
		r.Prf = xmssmt.NIST
	}
	return r
}

// fatalT is what rapid.T and testing.T have in common.
type fatalT interface {
	Fatalf(format string, args ...any)
	Logf(format string, args ...any)
	Helper()
}

func newCtx(t fatalT, p P, threads int) *xmssmt.Context {
	t.Helper()
	ctx, err := xmssmt.NewContext(lib(p))
	if err != nil {
		t.Fatalf("NewContext(%v): %v", p, err)
	}
	ctx.Threads = threads
	return ctx
}

// ---- generators ----

func hashMs(p P) float64 {
	switch {
	case p.Func == ref.SHA2 && p.N <= 32:
		return 0.00015
	case p.Func == ref.SHA2:
		return 0.0004
	}
	return 0.0006
}

// leafMs estimates the time to compute one leaf, in milliseconds.
func leafMs(p P) float64 {
	return hashMs(p) * float64(p.Len()*(p.W-1)*3+p.Len()*4)
}

// genBase draws hash, n, w and prf.
func genBase(t *rapid.T) P {
	var p P
	p.Func = rapid.IntRange(0, 2).Draw(t, "func")
	p.N = rapid.SampledFrom([]int{32, 16, 24, 64}).Draw(t, "n")
	p.W = rapid.SampledFrom([]int{16, 4, 256}).Draw(t, "w")
	p.NIST = rapid.Bool().Draw(t, "nist")
	p.D, p.H = 1, 1
	return p
}

type shape struct{ th, d int }

// genParams draws a parameter set of which a whole path of subtrees costs at
// most budgetMs.  maxTH, maxD bound the shape (0: no bound).
func genParams(t *rapid.T, budgetMs float64, maxTH, maxD int) P {
	return genShape(t, genBase(t), budgetMs, 1, maxTH, maxD)
}

func genShape(t *rapid.T, p P, budgetMs float64, minTH, maxTH, maxD int) P {
	if maxTH == 0 {
		maxTH = 10
	}
	if maxD == 0 {
		maxD = 63
	}
	leaf := leafMs(p)
	byTH := map[int]int{}
	var ths []int
	for th := minTH; th <= maxTH; th++ {
		d := int(budgetMs / (leaf * float64(int(1)<<uint(th))))
		if d > maxD {
			d = maxD
		}
		if d*th > 63 {
			d = 63 / th
		}
		if d < 1 && th == minTH {
			d = 1
		}
		if d >= 1 {
			ths = append(ths, th)
			byTH[th] = d
		}
	}
	th := rapid.SampledFrom(ths).Draw(t, "th")
	max := byTH[th]
	min := 1
	if max >= 2 && rapid.IntRange(0, 3).Draw(t, "multi") > 0 {
		min = 2
	}
	d := rapid.IntRange(min, max).Draw(t, "d")
	if max > 4 && d > 3 && rapid.IntRange(0, 2).Draw(t, "dcap") > 0 {
		d = 2 + d%2
	}
	p.D, p.H = d, th*d
	return p
}

// expand makes n bytes from a drawn number.
func expand(seed uint64, n int) []byte {
	b := make([]byte, n)
	var key [32]byte
	binary.LittleEndian.PutUint64(key[:], seed)
	rand.NewChaCha8(key).Read(b)
	return b
}

func genSeed(t *rapid.T, n int, name string) []byte {
	x := rapid.Uint64().Draw(t, name)
	switch x % 16 {
	case 0:
		return make([]byte, n)
	case 1:
		return bytes.Repeat([]byte{0xff}, n)
	}
	return expand(x, n)
}

func genKey(t *rapid.T, p P) *ref.Key {
	return ref.NewKey(p, genSeed(t, p.N, "pubSeed"), genSeed(t, p.N, "skSeed"), genSeed(t, p.N, "skPrf"))
}

// genIndex draws an index at which the key can sign (p.H >= 1).
func genIndex(t *rapid.T, p P) uint64 {
	last := p.Max() - 1
	var i uint64
	switch rapid.IntRange(0, 4).Draw(t, "idxKind") {
	case 0:
		i = rapid.Uint64Range(0, 3).Draw(t, "idx")
	case 1:
		i = last - rapid.Uint64Range(0, 3).Draw(t, "idxFromEnd")
	case 2: // near a subtree boundary
		l := rapid.IntRange(1, p.D).Draw(t, "layer")
		sz := uint64(1) << uint(l*p.TH()%64)
		m := rapid.Uint64Range(0, p.Max()/sz).Draw(t, "mult")
		i = m*sz + rapid.Uint64Range(0, 3).Draw(t, "off") - 2
	case 3: // near a power of two
		b := rapid.IntRange(0, p.H-1).Draw(t, "bit")
		i = uint64(1)<<uint(b) + rapid.Uint64Range(0, 3).Draw(t, "off") - 2
	default:
		i = rapid.Uint64().Draw(t, "idx") & p.Max()
	}
	if i > last {
		if int64(i) < 0 {
			return 0
		}
		return last
	}
	return i
}

// genMsg draws a message: empty, short, around the block sizes, long.
func genMsg(t *rapid.T) []byte {
	switch rapid.IntRange(0, 5).Draw(t, "msgKind") {
	case 0:
		return nil
	case 1, 2:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "msg")
	case 3, 4:
		blk := rapid.SampledFrom([]int{64, 128, 136, 168, 32, 4096, 512}).Draw(t, "blk")
		n := blk*rapid.IntRange(1, 5).Draw(t, "blks") + rapid.IntRange(-3, 3).Draw(t, "off")
		return expand(rapid.Uint64().Draw(t, "msgSeed"), n)
	default:
		n := rapid.IntRange(0, 120000).Draw(t, "msgLen")
		if rapid.IntRange(0, 5).Draw(t, "big") == 0 {
			n = 1<<uint(rapid.IntRange(12, 21).Draw(t, "msgBit")) + rapid.IntRange(-3, 3).Draw(t, "off")
		}
		return expand(rapid.Uint64().Draw(t, "msgSeed"), n)
	}
}

func genShortMsg(t *rapid.T) []byte {
	return rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "msg")
}

// oddReader delivers data in the given pieces (cycling), including empty
// reads, and optionally reports EOF together with the last piece.
type oddReader struct {
	data    []byte
	sizes   []int
	i       int
	eofWith bool
	failAt  int  // -1: never; else fail once this many bytes have been read
	errWith bool // the error comes along with the last bytes
	err     error
	pos     int
}

func (r *oddReader) Read(b []byte) (int, error) {
	if r.failAt >= 0 && r.pos >= r.failAt {
		return 0, r.err
	}
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	n := len(r.data) - r.pos
	if len(r.sizes) > 0 {
		if s := r.sizes[r.i%len(r.sizes)]; s < n {
			n = s
		}
		r.i++
	}
	if n > len(b) {
		n = len(b)
	}
	if r.failAt >= 0 && r.pos+n > r.failAt {
		n = r.failAt - r.pos
	}
	copy(b, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.errWith && r.pos == r.failAt {
		return n, r.err
	}
	if r.eofWith && r.pos == len(r.data) && r.failAt < 0 {
		return n, io.EOF
	}
	return n, nil
}

// temporaryErr says that it might be worth trying again.
type temporaryErr struct{}

func (temporaryErr) Error() string   { return "try again" }
func (temporaryErr) Temporary() bool { return true }
func (temporaryErr) Timeout() bool   { return true }

// genErr draws an error that a message source might report.
func genErr(t *rapid.T) error {
	return rapid.SampledFrom([]error{
		errors.New("source failed"), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress,
		io.ErrShortBuffer, io.ErrShortWrite, os.ErrClosed, os.ErrDeadlineExceeded, context.Canceled,
		context.DeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.EIO, temporaryErr{},
		&os.PathError{Op: "read", Path: "x", Err: syscall.EIO}, bufio.ErrBufferFull,
	}).Draw(t, "err")
}

// genReader wraps msg in a reader that delivers it in some odd way.
func genReader(t *rapid.T, msg []byte) io.Reader {
	kind := rapid.IntRange(0, 17).Draw(t, "readerKind")
	// The message is what the reader has yet to deliver; not what it delivered
	// before, nor what is behind its end.
	pre := expand(uint64(kind), rapid.SampledFrom([]int{0, 1, 5, 64, 200, 5000}).Draw(t, "delivered"))
	post := expand(uint64(kind)+99, rapid.SampledFrom([]int{0, 1, 64, 5000}).Draw(t, "behind"))
	whole := append(append(append([]byte(nil), pre...), msg...), post...)
	upTo := whole[:len(pre)+len(msg)]
	skip := func(r io.Reader) io.Reader {
		if _, err := io.CopyN(io.Discard, r, int64(len(pre))); err != nil {
			infra("skip: %v", err)
		}
		return r
	}
	label("reader kind %d", kind)
	switch kind {
	case 0:
		return skip(bytes.NewReader(upTo))
	case 1:
		return skip(bytes.NewBuffer(upTo))
	case 2:
		return io.MultiReader(bytes.NewReader(msg[:len(msg)/2]), bytes.NewReader(nil), bytes.NewReader(msg[len(msg)/2:]))
	case 3:
		return skip(strings.NewReader(string(upTo)))
	case 4: // a part of something larger
		return io.NewSectionReader(bytes.NewReader(whole), int64(len(pre)), int64(len(msg)))
	case 5:
		return io.LimitReader(skip(bytes.NewReader(whole)), int64(len(msg)))
	case 6, 7: // a file, from where it is
		f, err := os.CreateTemp(scratch, "msg")
		if err != nil {
			infra("message file: %v", err)
		}
		t.Cleanup(func() { f.Close() })
		os.Remove(f.Name())
		body := upTo
		if kind == 7 {
			body = whole
		}
		if _, err = f.Write(body); err == nil {
			_, err = f.Seek(int64(len(pre)), io.SeekStart)
		}
		if err != nil {
			infra("message file: %v", err)
		}
		if kind == 7 {
			return &io.LimitedReader{R: f, N: int64(len(msg))}
		}
		return f
	case 8:
		return skip(bufio.NewReaderSize(bytes.NewReader(upTo), rapid.SampledFrom([]int{16, 100, 4096}).Draw(t, "bufio")))
	case 9:
		r, w := io.Pipe()
		go func() {
			for b := msg; len(b) > 0; {
				n := min(len(b), 1+len(b)/3)
				if _, err := w.Write(b[:n]); err != nil {
					return
				}
				b = b[n:]
			}
			w.Close()
		}()
		t.Cleanup(func() { r.Close() })
		return r
	case 10:
		return io.TeeReader(bytes.NewReader(msg), io.Discard)
	case 11:
		return iotest.DataErrReader(bytes.NewReader(msg))
	case 12:
		if len(msg) > 20000 {
			return iotest.HalfReader(bytes.NewReader(msg))
		}
		return iotest.OneByteReader(bytes.NewReader(msg))
	case 13: // uses all of the buffer for its own purposes
		return scratchReader{bytes.NewReader(msg)}
	default:
		sizes := rapid.SliceOfN(rapid.SampledFrom([]int{1, 0, 2, 3, 7, 31, 64, 100, 168, 1000, 40000}), 1, 6).Draw(t, "sizes")
		nz := false
		for _, s := range sizes {
			nz = nz || s > 0
		}
		if !nz {
			sizes = append(sizes, 1)
		}
		if len(msg) > 5000 {
			sizes = append(sizes, 4000)
		}
		return &oddReader{data: msg, sizes: sizes, failAt: -1,
			eofWith: rapid.Bool().Draw(t, "eofWith")}
	}
}

// scratchReader may deliver less than asked for, and spoils the rest of the
// buffer, as an io.Reader is allowed to.
type scratchReader struct{ r io.Reader }

func (s scratchReader) Read(b []byte) (int, error) {
	n, err := s.r.Read(b[:(len(b)+1)/2])
	for i := range b[n:] {
		b[n+i] = 0xa5
	}
	return n, err
}

// ---- in-memory container ----

type ctrErr struct{ s string }

func (e *ctrErr) Error() string { return e.s }
func (e *ctrErr) Locked() bool  { return false }
func (e *ctrErr) Inner() error  { return nil }

// memCtr is a straightforward implementation of PrivateKeyContainer.  It is
// intentionally not thread safe, but notices overlapping calls.
type memCtr struct {
	durable uint64 // seqNo as it was after the last call; first, for its alignment
	init    bool
	params  xmssmt.Params
	sk      []byte
	seqNo   uint64
	lost    uint32
	cache   map[xmssmt.SubTreeAddress][]byte
	closed  bool

	active   int32
	overlaps int32
	// fault is consulted on each call; before=true ahead of its effect, false
	// after it.  A non-nil result makes the call fail at this point.
	fault func(op string, before bool) xmssmt.Error
	// hook is called inside each call (while it is "active").
	hook func(op string)
	logM sync.Mutex
	log  []string
	// layer is that of the subtree that was asked for last.
	layer uint32
	// afterClose lists the calls made after Close succeeded.
	afterClose []string
	seqWrites  int
	maxTrees   int
	dropped    [][]byte
	// With reuse, the space of dropped subtrees is reused, as it is.  before
	// keeps what was in the space of a subtree before.
	reuse  bool
	pool   [][]byte
	before map[xmssmt.SubTreeAddress][]byte
}

func newMemCtr() *memCtr { return &memCtr{} }

// memCtrFor makes a container which holds the key at the given index.
func memCtrFor(k *ref.Key, seqNo uint64) *memCtr {
	return &memCtr{init: true, params: lib(k.P), sk: k.SkBytes(), seqNo: seqNo,
		cache: map[xmssmt.SubTreeAddress][]byte{}}
}

func (c *memCtr) enter(op string) {
	if atomic.AddInt32(&c.active, 1) != 1 {
		atomic.AddInt32(&c.overlaps, 1)
	}
	c.logM.Lock()
	c.log = append(c.log, op)
	if c.closed {
		c.afterClose = append(c.afterClose, op)
	}
	c.logM.Unlock()
	if c.hook != nil {
		c.hook(op)
	}
}
func (c *memCtr) leave() {
	atomic.StoreUint64(&c.durable, c.seqNo)
	atomic.AddInt32(&c.active, -1)
}

// settle waits for calls in the background to end, and lets the race detector
// know that they have.
func (c *memCtr) settle() {
	quiesce()
	atomic.LoadInt32(&c.active)
}

func (c *memCtr) fail(op string, before bool) xmssmt.Error {
	if c.fault != nil {
		return c.fault(op, before)
	}
	return nil
}

func (c *memCtr) size() int {
	p := c.params
	th := p.FullHeight / p.D
	rp := P{N: int(p.N), W: int(p.WotsW), D: int(p.D), H: int(p.FullHeight)}
	return (1<<(th+1)-1)*int(p.N) + rp.WotsBytes() + 8
}

func (c *memCtr) ResetCache() xmssmt.Error {
	c.enter("ResetCache")
	defer c.leave()
	if err := c.fail("ResetCache", true); err != nil {
		return err
	}
	if !c.init {
		return &ctrErr{"not initialized"}
	}
	c.cache = map[xmssmt.SubTreeAddress][]byte{}
	return c.fail("ResetCache", false)
}

func (c *memCtr) GetSubTree(a xmssmt.SubTreeAddress) ([]byte, bool, xmssmt.Error) {
	c.enter(fmt.Sprintf("GetSubTree(%d,%d)", a.Layer, a.Tree))
	defer c.leave()
	c.layer = a.Layer
	if err := c.fail("GetSubTree", true); err != nil {
		return nil, false, err
	}
	if c.cache == nil || c.closed {
		return nil, false, &ctrErr{"cache not initialized"}
	}
	if b, ok := c.cache[a]; ok {
		return b, true, nil
	}
	b := make([]byte, c.size())
	if n := len(c.pool); c.reuse && n > 0 {
		b, c.pool = c.pool[n-1], c.pool[:n-1]
	}
	if c.reuse {
		if c.before == nil {
			c.before = map[xmssmt.SubTreeAddress][]byte{}
		}
		c.before[a] = append([]byte(nil), b...)
	}
	c.cache[a] = b
	if c.hook != nil {
		c.hook("GetSubTree: new")
	}
	if len(c.cache) > c.maxTrees {
		c.maxTrees = len(c.cache)
	}
	return b, false, nil
}

func (c *memCtr) HasSubTree(a xmssmt.SubTreeAddress) bool {
	c.enter("HasSubTree")
	defer c.leave()
	_, ok := c.cache[a]
	return ok
}

func (c *memCtr) DropSubTree(a xmssmt.SubTreeAddress) xmssmt.Error {
	c.enter(fmt.Sprintf("DropSubTree(%d,%d)", a.Layer, a.Tree))
	defer c.leave()
	if err := c.fail("DropSubTree", true); err != nil {
		return err
	}
	if c.cache == nil || c.closed {
		return &ctrErr{"cache not initialized"}
	}
	if b, ok := c.cache[a]; ok {
		// The space may be reused for something else at once.
		if c.reuse {
			c.pool = append(c.pool, append([]byte(nil), b...))
			delete(c.before, a)
		}
		for i := range b {
			b[i] = 0xdb
		}
		delete(c.cache, a)
	}
	return c.fail("DropSubTree", false)
}

func (c *memCtr) ListSubTrees() ([]xmssmt.SubTreeAddress, xmssmt.Error) {
	c.enter("ListSubTrees")
	defer c.leave()
	if err := c.fail("ListSubTrees", true); err != nil {
		return nil, err
	}
	if c.cache == nil || c.closed {
		return nil, &ctrErr{"cache not initialized"}
	}
	var r []xmssmt.SubTreeAddress
	for a := range c.cache {
		r = append(r, a)
	}
	return r, nil
}

func (c *memCtr) Reset(sk []byte, p xmssmt.Params) xmssmt.Error {
	c.enter("Reset")
	defer c.leave()
	if err := c.fail("Reset", true); err != nil {
		return err
	}
	if c.closed {
		return &ctrErr{"closed"}
	}
	c.init, c.params, c.sk, c.seqNo, c.lost = true, p, append([]byte(nil), sk...), 0, 0
	c.cache = map[xmssmt.SubTreeAddress][]byte{}
	return c.fail("Reset", false)
}

func (c *memCtr) BorrowSeqNos(n uint32) (xmssmt.SignatureSeqNo, xmssmt.Error) {
	c.enter(fmt.Sprintf("BorrowSeqNos(%d)", n))
	defer c.leave()
	if err := c.fail("BorrowSeqNos", true); err != nil {
		return 0, err
	}
	if !c.init || c.closed {
		return 0, &ctrErr{"not initialized"}
	}
	c.seqWrites++
	old := c.seqNo
	c.seqNo += uint64(n)
	c.lost = uint32(min(uint64(c.lost)+uint64(n), 1<<32-1))
	if err := c.fail("BorrowSeqNos", false); err != nil {
		return 0, err
	}
	return xmssmt.SignatureSeqNo(old), nil
}

func (c *memCtr) SetSeqNo(s xmssmt.SignatureSeqNo) xmssmt.Error {
	c.enter(fmt.Sprintf("SetSeqNo(%d)", s))
	defer c.leave()
	if err := c.fail("SetSeqNo", true); err != nil {
		return err
	}
	if !c.init || c.closed {
		return &ctrErr{"not initialized"}
	}
	c.seqWrites++
	c.seqNo, c.lost = uint64(s), 0
	return c.fail("SetSeqNo", false)
}

func (c *memCtr) GetSeqNo() (xmssmt.SignatureSeqNo, uint32, xmssmt.Error) {
	c.enter("GetSeqNo")
	defer c.leave()
	if err := c.fail("GetSeqNo", true); err != nil {
		return 0, 0, err
	}
	if !c.init || c.closed {
		return 0, 0, &ctrErr{"not initialized"}
	}
	return xmssmt.SignatureSeqNo(c.seqNo), c.lost, nil
}

func (c *memCtr) GetPrivateKey() ([]byte, xmssmt.Error) {
	c.enter("GetPrivateKey")
	defer c.leave()
	if err := c.fail("GetPrivateKey", true); err != nil {
		return nil, err
	}
	if !c.init || c.closed {
		return nil, &ctrErr{"not initialized"}
	}
	return c.sk, nil
}

func (c *memCtr) Initialized() *xmssmt.Params {
	c.enter("Initialized")
	defer c.leave()
	if !c.init || c.closed {
		return nil
	}
	p := c.params
	return &p
}

func (c *memCtr) CacheInitialized() bool {
	c.enter("CacheInitialized")
	defer c.leave()
	return c.cache != nil && !c.closed
}

func (c *memCtr) Close() xmssmt.Error {
	c.enter("Close")
	defer c.leave()
	if err := c.fail("Close", true); err != nil {
		return err
	}
	c.logM.Lock()
	c.closed = true
	c.logM.Unlock()
	return c.fail("Close", false)
}

// reopened returns a new container with the same durable state.
func (c *memCtr) reopened() *memCtr {
	n := &memCtr{init: c.init, params: c.params, sk: append([]byte(nil), c.sk...), seqNo: c.seqNo, lost: c.lost}
	if c.cache != nil {
		n.cache = map[xmssmt.SubTreeAddress][]byte{}
		for a, b := range c.cache {
			n.cache[a] = append([]byte(nil), b...)
		}
	}
	n.reuse = c.reuse
	for _, b := range c.pool {
		n.pool = append(n.pool, append([]byte(nil), b...))
	}
	for a, b := range c.before {
		if n.before == nil {
			n.before = map[xmssmt.SubTreeAddress][]byte{}
		}
		n.before[a] = b
	}
	return n
}

func (c *memCtr) checkOverlap(t fatalT) {
	t.Helper()
	if n := atomic.LoadInt32(&c.overlaps); n != 0 {
		t.Fatalf("%d overlapping calls into the container", n)
	}
}

// ---- scratch directories, key files ----

var dirCount int64

// tmpDir makes a fresh directory for one case; the caller removes it.
func tmpDir() string {
	d := filepath.Join(scratch, fmt.Sprintf("d%d", atomic.AddInt64(&dirCount, 1)))
	if err := os.Mkdir(d, 0700); err != nil {
		infra("mkdir: %v", err)
	}
	return d
}

// rmDir removes a directory made by tmpDir.
func rmDir(d string) {
	if scratch == "" || filepath.Dir(d) != scratch {
		infra("refusing to remove %q", d)
	}
	os.RemoveAll(d)
}

type keyFile struct {
	Params   P
	Raw      xmssmt.Params
	SeqNo    uint64
	Borrowed uint32
	Sk       []byte
}

const keyMagic = "4089430a5ced6844"

// parseKeyFile reads a key file by the documented layout.
func parseKeyFile(b []byte) (k keyFile, err error) {
	if len(b) < 36 {
		return k, fmt.Errorf("key file has only %d bytes", len(b))
	}
	if hex.EncodeToString(b[:8]) != keyMagic {
		return k, fmt.Errorf("bad magic %x", b[:8])
	}
	be := binary.BigEndian
	k.Raw = xmssmt.Params{Func: xmssmt.HashFunc(b[8]), N: be.Uint32(b[9:]), FullHeight: be.Uint32(b[13:]),
		D: be.Uint32(b[17:]), WotsW: be.Uint16(b[21:]), Prf: xmssmt.PrfConstruction(b[23])}
	k.Params = P{Func: int(b[8]), N: int(k.Raw.N), H: int(k.Raw.FullHeight), D: int(k.Raw.D), W: int(k.Raw.WotsW), NIST: b[23] == 1}
	k.SeqNo = be.Uint64(b[24:])
	k.Borrowed = be.Uint32(b[32:])
	k.Sk = b[36:]
	if len(k.Sk) != 3*k.Params.N {
		return k, fmt.Errorf("private key has %d bytes, want %d", len(k.Sk), 3*k.Params.N)
	}
	return k, nil
}

func readKeyFile(path string) (keyFile, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return keyFile{}, err
	}
	return parseKeyFile(b)
}

// keyHeader encodes the header of a key file.
func keyHeader(p xmssmt.Params, seqNo uint64, borrowed uint32) []byte {
	b, _ := hex.DecodeString(keyMagic)
	be := binary.BigEndian
	b = append(b, byte(p.Func))
	b = be.AppendUint32(b, p.N)
	b = be.AppendUint32(b, p.FullHeight)
	b = be.AppendUint32(b, p.D)
	b = be.AppendUint16(b, p.WotsW)
	b = append(b, byte(p.Prf))
	b = be.AppendUint64(b, seqNo)
	return be.AppendUint32(b, borrowed)
}

func writeKeyFile(path string, k *ref.Key, seqNo uint64, borrowed uint32) {
	b := append(keyHeader(lib(k.P), seqNo, borrowed), k.SkBytes()...)
	if err := os.WriteFile(path, b, 0600); err != nil {
		infra("write key: %v", err)
	}
}

// copyKey copies the key and cache file (not the lock) to another path: what a
// new process would find had this one been lost now.
func copyKey(from, to string) {
	for _, s := range []string{"", ".cache", ".tmp"} {
		b, err := os.ReadFile(from + s)
		if os.IsNotExist(err) {
			continue
		}
		if err != nil {
			infra("copy: %v", err)
		}
		if err = os.WriteFile(to+s, b, 0600); err != nil {
			infra("copy: %v", err)
		}
	}
}

// ---- library helpers ----

func mustBytes(t fatalT, m interface{ MarshalBinary() ([]byte, error) }) []byte {
	t.Helper()
	b, err := m.MarshalBinary()
	if err != nil {
		t.Fatalf("MarshalBinary: %v", err)
	}
	return b
}

// seeds of a ref key, in DeriveInto's order.
func deriveInto(ctx *xmssmt.Context, k *ref.Key, c xmssmt.PrivateKeyContainer) (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
	cp := func(b []byte) []byte { return append([]byte(nil), b...) }
	return ctx.DeriveInto(c, cp(k.PubSeed), cp(k.SkSeed), cp(k.SkPrf))
}

func derive(ctx *xmssmt.Context, k *ref.Key, path string) (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
	cp := func(b []byte) []byte { return append([]byte(nil), b...) }
	return ctx.Derive(path, cp(k.PubSeed), cp(k.SkSeed), cp(k.SkPrf))
}

func same(t fatalT, what string, got, want []byte) {
	t.Helper()
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		t.Fatalf("%s differs from the specification at byte %d of %d (got %d bytes)", what, i, len(want), len(got))
	}
}

// protect turns a panic of f into an error.
func protect(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	f()
	return nil
}

// genLife draws small parameters for histories of operations: subtrees of
// height minTH..maxTH, minH <= full height <= maxH, of moderate cost.
func genLife(t *rapid.T, budgetMs float64, minTH, maxTH, minH, maxH int) P {
	p := genBase(t)
	if rapid.IntRange(0, 3).Draw(t, "cheap") > 0 {
		if p.W == 256 {
			p.W = 16
		}
		if p.N == 64 {
			p.N = 32
		}
	}
	leaf := leafMs(p)
	var all, ok []shape
	for th := minTH; th <= maxTH; th++ {
		for d := 1; d*th <= maxH; d++ {
			if d*th < minH {
				continue
			}
			s := shape{th, d}
			all = append(all, s)
			if float64(d)*float64(int(1)<<uint(th))*leaf <= budgetMs {
				ok = append(ok, s)
			}
		}
	}
	if len(ok) == 0 {
		p.W, p.N, p.Func = 16, 16, ref.SHA2
		ok = all
	}
	s := rapid.SampledFrom(ok).Draw(t, "shape")
	p.D, p.H = s.d, s.th*s.d
	return p
}

// pick draws one of the weighted names.
func pick(t *rapid.T, name string, weighted ...interface{}) string {
	var pool []string
	for i := 0; i < len(weighted); i += 2 {
		for j := 0; j < weighted[i+1].(int); j++ {
			pool = append(pool, weighted[i].(string))
		}
	}
	return rapid.SampledFrom(pool).Draw(t, name)
}

func removeFile(path string) {
	if err := os.Remove(path); err != nil && !os.IsNotExist(err) {
		infra("remove: %v", err)
	}
}

func sum64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// genAmount draws a number of indices to be reserved: up to max, mostly; when
// there are many left, also around the powers of two.
func genAmount(t *rapid.T, max int, left uint64) uint32 {
	if left > 100 && rapid.IntRange(0, 3).Draw(t, "muchAtOnce") == 0 {
		var a uint64
		switch rapid.IntRange(0, 5).Draw(t, "amountKind") {
		case 0:
			a = left - rapid.Uint64Range(0, 3).Draw(t, "lessThanLeft")
		case 1:
			a = rapid.Uint64Range(0, 1<<32-1).Draw(t, "amount")
		default:
			a = 1<<uint(rapid.SampledFrom([]int{8, 16, 32, 31, 15, 24, 7, 12, 10}).Draw(t, "amountBit")) + rapid.Uint64Range(0, 2).Draw(t, "amountOff") - 1
		}
		return uint32(min(a, left, 1<<32-1))
	}
	return uint32(rapid.IntRange(0, max).Draw(t, "amount"))
}

// genTall is genLife, but sometimes the indices of the key may have any size.
func genTall(t *rapid.T, budgetMs float64, minTH, maxTH, minH, maxH int) P {
	p := genLife(t, budgetMs, minTH, maxTH, minH, maxH)
	if rapid.IntRange(0, 3).Draw(t, "tall") == 0 {
		// there is a subtree of each layer to be computed
		p.N, p.Func = rapid.SampledFrom([]int{16, 32, 24}).Draw(t, "tallN"), rapid.IntRange(0, 2).Draw(t, "tallFunc")
		p.W = rapid.SampledFrom([]int{16, 4}).Draw(t, "tallW")
		th := rapid.IntRange(minTH, min(2, maxTH)).Draw(t, "tallTH")
		lo, hi := maxH/th+1, 63/th
		if rapid.Bool().Draw(t, "around32") {
			lo, hi = 30/th, 36/th
		}
		p.D = rapid.IntRange(lo, hi).Draw(t, "tallD")
		p.H = th * p.D
	}
	return p
}
