package props

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C22: the filesystem container behaves like its documented interface.

type ctrModel struct {
	init   bool
	params P
	sk     []byte
	seqNo  uint64
	lost   uint32
	cache  map[xmssmt.SubTreeAddress][]byte // nil: not initialised
}

// relayout rewrites a cache file (which has the documented layout) with another
// version or alignment.
func relayout(t *rapid.T, p P, path string) string {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 17 {
		return ""
	}
	be := binary.BigEndian
	n, align := int(be.Uint32(b[8:])), int(be.Uint32(b[13:]))
	if align == 0 {
		align = 4096
	}
	stride := func(a int) int { return (cachedSize(p) + 13 + a - 1) / a * a }
	newAlign := rapid.SampledFrom([]int{4096, 512, 8192, 65536, 64, 1000}).Draw(t, "align")
	kind := "aligned"
	if newAlign == 4096 {
		kind = rapid.SampledFrom([]string{"version 0", "default alignment", "aligned"}).Draw(t, "layout")
	}
	var hdr []byte
	switch kind {
	case "version 0":
		hdr, _ = hex.DecodeString("e77957607ef79446")
		hdr = be.AppendUint32(hdr, uint32(n))
		hdr = append(hdr, 0)
		hdr = be.AppendUint32(hdr, 0)
	default:
		hdr, _ = hex.DecodeString("5a11d7cf4a1f6314")
		hdr = be.AppendUint32(hdr, uint32(n))
		hdr = append(hdr, 1)
		a := newAlign
		if kind == "default alignment" {
			a = 0
		}
		hdr = be.AppendUint32(hdr, uint32(a))
	}
	out := make([]byte, newAlign+n*stride(newAlign))
	copy(out, hdr)
	for i := 0; i < n; i++ {
		from := align + i*stride(align)
		copy(out[newAlign+i*stride(newAlign):][:cachedSize(p)+13], b[from:])
	}
	if err := os.WriteFile(path, out, 0600); err != nil {
		infra("write: %v", err)
	}
	return fmt.Sprintf("%s %d", kind, newAlign)
}

func TestC22_Model(t *testing.T) {
	check(t, 200000, 1000000, func(t *rapid.T) {
		dir := tmpDir()
		defer rmDir(dir)
		type inst struct {
			path string
			c    xmssmt.PrivateKeyContainer // nil: not open
			old  []xmssmt.PrivateKeyContainer
			m    ctrModel
			bufs map[xmssmt.SubTreeAddress][]byte // handed out by c

		}
		var insts []*inst
		for i := 0; i < rapid.IntRange(1, 2).Draw(t, "containers"); i++ {
			insts = append(insts, &inst{path: filepath.Join(dir, fmt.Sprintf("key%d", i))})
		}
		defer func() {
			for _, x := range insts {
				if x.c != nil {
					x.c.Close()
				}
			}
		}()
		var hist []string
		fatalf := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("%s\nhistory: %v", fmt.Sprintf(f, a...), hist)
		}
		logf := func(f string, a ...interface{}) {
			hist = append(hist, fmt.Sprintf(f, a...))
			step("C22 %v", hist)
		}
		genAddr := func() xmssmt.SubTreeAddress {
			a := xmssmt.SubTreeAddress{Layer: uint32(rapid.IntRange(0, 2).Draw(t, "layer")), Tree: uint64(rapid.IntRange(0, 3).Draw(t, "tree"))}
			switch rapid.IntRange(0, 7).Draw(t, "addrKind") {
			case 0:
				a.Tree += 1 << 32
			case 1:
				a.Tree |= 1 << 63
			case 2:
				a.Layer += 256
			case 3:
				a.Layer |= 1 << 31
			}
			return a
		}
		mustFail := func(what string, err error, isNil bool) {
			t.Helper()
			if isNil {
				fatalf("%s returned no error", what)
			}
			if err.Error() == "" && what != "" {
				label("empty error message")
			}
		}
		// everything that can be observed of a container equals the model
		compare := func(x *inst) {
			if x.c == nil {
				return
			}
			eval()
			p := x.c.Initialized()
			if (p != nil) != x.m.init {
				fatalf("Initialized()=%v, model says %v", p, x.m.init)
			}
			if x.c.CacheInitialized() != (x.m.cache != nil) {
				fatalf("CacheInitialized()=%v, model says %v", x.c.CacheInitialized(), x.m.cache != nil)
			}
			seq, lost, err := x.c.GetSeqNo()
			sk, err2 := x.c.GetPrivateKey()
			l, err3 := x.c.ListSubTrees()
			if !x.m.init {
				mustFail("GetSeqNo of an uninitialised container", err, err == nil)
				mustFail("GetPrivateKey of an uninitialised container", err2, err2 == nil)
			} else {
				if *p != lib(x.m.params) {
					fatalf("Initialized()=%+v, model says %v", *p, x.m.params)
				}
				p.N, p.D = 99, 99 // the caller's
				if err != nil || uint64(seq) != x.m.seqNo || lost != x.m.lost {
					fatalf("GetSeqNo()=%d,%d,%v, model says %d,%d", seq, lost, err, x.m.seqNo, x.m.lost)
				}
				if err2 != nil || !bytes.Equal(sk, x.m.sk) {
					fatalf("GetPrivateKey()=%x,%v, model says %x", sk, err2, x.m.sk)
				}
				scribble(sk)
			}
			if x.m.cache == nil {
				mustFail("ListSubTrees without a cache", err3, err3 == nil)
				return
			}
			if err3 != nil {
				fatalf("ListSubTrees: %v", err3)
			}
			if len(l) != len(x.m.cache) {
				fatalf("ListSubTrees()=%v, model has %d", l, len(x.m.cache))
			}
			got := map[xmssmt.SubTreeAddress]bool{}
			for _, a := range l {
				if _, ok := x.m.cache[a]; !ok || got[a] {
					fatalf("ListSubTrees()=%v: %v is unexpected", l, a)
				}
				got[a] = true
			}
			for a, b := range x.bufs {
				if !bytes.Equal(b, x.m.cache[a]) {
					fatalf("the buffer of subtree %v has changed", a)
				}
			}
		}
		open := func(x *inst) {
			c, err := xmssmt.OpenFSPrivateKeyContainer(x.path)
			if err != nil {
				fatalf("open %s: %v", filepath.Base(x.path), err)
			}
			x.c = c
			x.bufs = map[xmssmt.SubTreeAddress][]byte{}
		}
		closeIt := func(x *inst) {
			if err := x.c.Close(); err != nil {
				fatalf("Close: %v", err)
			}
			x.old = append(x.old, x.c)
			x.c = nil
			x.bufs = nil
		}
		write := func(x *inst, a xmssmt.SubTreeAddress) {
			b, m := x.bufs[a], x.m.cache[a]
			switch rapid.IntRange(0, 3).Draw(t, "write") {
			case 0:
				d := expand(rapid.Uint64().Draw(t, "x"), len(b))
				copy(b, d)
				copy(m, d)
			case 1: // the ends
				v := rapid.Byte().Draw(t, "v")
				b[0], m[0] = v, v
				b[len(b)-1], m[len(b)-1] = ^v, ^v
			default:
				from := rapid.IntRange(0, len(b)-1).Draw(t, "from")
				n := rapid.IntRange(1, len(b)-from).Draw(t, "n")
				d := expand(rapid.Uint64().Draw(t, "x"), n)
				copy(b[from:], d)
				copy(m[from:], d)
			}
		}
		for _, x := range insts {
			open(x)
			compare(x)
		}
		reopens, kinds := 0, map[string]bool{}
		n := rapid.IntRange(8, 30).Draw(t, "n")
		for i := 0; i < n; i++ {
			x := insts[rapid.IntRange(0, len(insts)-1).Draw(t, "which")]
			if x.c == nil {
				open(x)
			}
			op := pick(t, "op", "get", 10, "write", 8, "drop", 5, "has", 2, "setseq", 3, "borrow", 3, "reset", 2, "resetcache", 1,
				"reopen", 4, "stale", 2, "deletecache", 1, "relayout", 2, "copy", 1, "many", 1)
			kinds[op] = true
			switch op {
			case "reset":
				p := genBase(t)
				p.D = rapid.IntRange(1, 3).Draw(t, "d")
				if rapid.IntRange(0, 3).Draw(t, "tall") == 0 {
					p.D = rapid.IntRange(12, 63).Draw(t, "tallD")
				}
				p.H = p.D * rapid.IntRange(1, min(5, 63/p.D)).Draw(t, "th")
				sk := expand(rapid.Uint64().Draw(t, "sk"), 3*p.N)
				arg := append([]byte(nil), sk...)
				logf("Reset(%v)", p)
				if err := x.c.Reset(arg, lib(p)); err != nil {
					fatalf("Reset: %v", err)
				}
				scribble(arg)
				x.m = ctrModel{init: true, params: p, sk: sk, cache: map[xmssmt.SubTreeAddress][]byte{}}
				x.bufs = map[xmssmt.SubTreeAddress][]byte{}
			case "resetcache":
				logf("ResetCache")
				err := x.c.ResetCache()
				if !x.m.init {
					mustFail("ResetCache of an uninitialised container", err, err == nil)
					break
				}
				if err != nil {
					fatalf("ResetCache: %v", err)
				}
				x.m.cache = map[xmssmt.SubTreeAddress][]byte{}
				x.bufs = map[xmssmt.SubTreeAddress][]byte{}
			case "get":
				a := genAddr()
				logf("GetSubTree(%v)", a)
				b, exists, err := x.c.GetSubTree(a)
				if x.m.cache == nil {
					mustFail("GetSubTree without a cache", err, err == nil)
					break
				}
				if err != nil {
					fatalf("GetSubTree(%v): %v", a, err)
				}
				want, ok := x.m.cache[a]
				if exists != ok {
					fatalf("GetSubTree(%v): exists=%v, model says %v", a, exists, ok)
				}
				if len(b) != cachedSize(x.m.params) {
					fatalf("GetSubTree(%v): a buffer of %d bytes, documented are %d (%v)", a, len(b), cachedSize(x.m.params), x.m.params)
				}
				if ok && !bytes.Equal(b, want) {
					fatalf("GetSubTree(%v): the contents are not those written", a)
				}
				x.bufs[a] = b
				if !ok {
					x.m.cache[a] = append([]byte(nil), b...)
					if rapid.Bool().Draw(t, "fill") {
						write(x, a)
					}
				}
			case "write":
				var l []xmssmt.SubTreeAddress
				for a := range x.bufs {
					l = append(l, a)
				}
				if len(l) == 0 {
					continue
				}
				sort.Slice(l, func(i, j int) bool {
					return l[i].Layer < l[j].Layer || l[i].Layer == l[j].Layer && l[i].Tree < l[j].Tree
				})
				a := rapid.SampledFrom(l).Draw(t, "addr")
				logf("write %v", a)
				write(x, a)
			case "many":
				// many subtrees at once, of which some are dropped again
				k := rapid.IntRange(2, 40).Draw(t, "many")
				if rapid.IntRange(0, 9).Draw(t, "veryMany") == 0 {
					k = rapid.IntRange(100, 400).Draw(t, "many")
				}
				mask, layer := rapid.Uint64().Draw(t, "mask"), uint32(rapid.IntRange(0, 2).Draw(t, "layer"))
				logf("GetSubTree of %d, DropSubTree of some %x", k, mask)
				if x.m.cache == nil {
					break
				}
				for j := 0; j < k; j++ {
					a := xmssmt.SubTreeAddress{Layer: layer, Tree: uint64(j)}
					want, ok := x.m.cache[a]
					b, exists, err := x.c.GetSubTree(a)
					if err != nil || exists != ok || len(b) != cachedSize(x.m.params) || ok && !bytes.Equal(b, want) {
						fatalf("GetSubTree(%v) of %d: exists=%v, %d bytes, %v; model: %v", a, k, exists, len(b), err, ok)
					}
					d := expand(mask+uint64(j), 24)
					copy(b, d)
					copy(b[len(b)-len(d):], d)
					x.m.cache[a] = append([]byte(nil), b...)
					x.bufs[a] = b
				}
				for j := 0; j < k; j++ {
					a := xmssmt.SubTreeAddress{Layer: layer, Tree: uint64(j)}
					if mask>>uint(j%61)&1 == 1 {
						if err := x.c.DropSubTree(a); err != nil {
							fatalf("DropSubTree(%v) of %d: %v", a, k, err)
						}
						delete(x.m.cache, a)
						delete(x.bufs, a)
					}
				}
				if k >= 100 {
					label("hundreds of subtrees")
				}
			case "drop":
				a := genAddr()
				logf("DropSubTree(%v)", a)
				err := x.c.DropSubTree(a)
				if x.m.cache == nil {
					mustFail("DropSubTree without a cache", err, err == nil)
					break
				}
				if err != nil {
					fatalf("DropSubTree(%v): %v", a, err)
				}
				delete(x.m.cache, a)
				delete(x.bufs, a)
			case "has":
				a := genAddr()
				logf("HasSubTree(%v)", a)
				_, ok := x.m.cache[a]
				if x.c.HasSubTree(a) != ok {
					fatalf("HasSubTree(%v)=%v", a, !ok)
				}
			case "setseq":
				s := uint64(0)
				if x.m.init {
					s = rapid.Uint64Range(0, x.m.params.Max()).Draw(t, "seqNo")
				}
				logf("SetSeqNo(%d)", s)
				err := x.c.SetSeqNo(xmssmt.SignatureSeqNo(s))
				if !x.m.init {
					mustFail("SetSeqNo of an uninitialised container", err, err == nil)
					break
				}
				if err != nil {
					fatalf("SetSeqNo: %v", err)
				}
				x.m.seqNo, x.m.lost = s, 0
			case "borrow":
				k := uint64(1)
				if x.m.init {
					k = uint64(genAmount(t, 6, x.m.params.Max()-x.m.seqNo))
					k = min(k, x.m.params.Max()-x.m.seqNo)
				}
				logf("BorrowSeqNos(%d)", k)
				s, err := x.c.BorrowSeqNos(uint32(k))
				if !x.m.init {
					mustFail("BorrowSeqNos of an uninitialised container", err, err == nil)
					break
				}
				over := uint64(x.m.lost)+k >= 1<<32
				if over && err != nil {
					label("more borrowed than can be recorded: refused")
					break
				}
				if err != nil || uint64(s) != x.m.seqNo {
					fatalf("BorrowSeqNos(%d)=%d,%v, model says %d", k, s, err, x.m.seqNo)
				}
				x.m.seqNo += k
				x.m.lost += uint32(k)
				if over {
					label("more borrowed than can be recorded")
					x.m.lost = 1<<32 - 1
				}
			case "reopen", "deletecache", "relayout":
				closeIt(x)
				what := ""
				switch op {
				case "deletecache":
					removeFile(x.path + ".cache")
					x.m.cache = nil
				case "relayout":
					if x.m.cache != nil {
						what = relayout(t, x.m.params, x.path+".cache")
					}
				}
				logf("%s %s", op, what)
				reopens++
				open(x)
			case "copy": // what another process would find now
				logf("copy")
				to := filepath.Join(dir, "copy")
				for _, s := range []string{"", ".cache", ".tmp"} {
					removeFile(to + s)
				}
				copyKey(x.path, to)
				y := &inst{path: to, m: x.m}
				open(y)
				compare(y)
				for a, want := range x.m.cache {
					b, exists, err := y.c.GetSubTree(a)
					if err != nil || !exists || !bytes.Equal(b, want) {
						fatalf("subtree %v is not in the files (exists=%v, %v)", a, exists, err)
					}
				}
				closeIt(y)
			case "stale": // a closed container
				if len(x.old) == 0 {
					continue
				}
				o := x.old[len(x.old)-1]
				before := dirState(dir)
				k := rapid.IntRange(0, 11).Draw(t, "staleOp")
				logf("call %d on a closed container", k)
				a := genAddr()
				var err error
				isNil := false
				e := protect(func() {
					switch k {
					case 0:
						e := o.ResetCache()
						err, isNil = e, e == nil
					case 1:
						_, _, e := o.GetSubTree(a)
						err, isNil = e, e == nil
					case 2:
						if o.HasSubTree(a) {
							fatalf("a closed container has %v", a)
						}
						err = os.ErrClosed
					case 3:
						e := o.DropSubTree(a)
						err, isNil = e, e == nil
					case 4:
						_, e := o.ListSubTrees()
						err, isNil = e, e == nil
					case 5:
						e := o.Reset(expand(1, 96), lib(P{Func: 0, N: 32, H: 4, D: 2, W: 16}))
						err, isNil = e, e == nil
					case 6:
						_, e := o.BorrowSeqNos(1)
						err, isNil = e, e == nil
					case 7:
						e := o.SetSeqNo(0)
						err, isNil = e, e == nil
					case 8:
						_, _, e := o.GetSeqNo()
						err, isNil = e, e == nil
					case 9:
						_, e := o.GetPrivateKey()
						err, isNil = e, e == nil
					case 10:
						e := o.Close()
						err, isNil = e, e == nil
					case 11:
						if o.Initialized() != nil || o.CacheInitialized() {
							fatalf("a closed container calls itself initialised")
						}
						err = os.ErrClosed
					}
				})
				if e != nil {
					fatalf("operation %d on a closed container: %v", k, e)
				}
				mustFail(fmt.Sprintf("operation %d on a closed container", k), err, isNil)
				if dirState(dir) != before {
					fatalf("operation %d on a closed container changed the files", k)
				}
			}
			for _, y := range insts {
				compare(y)
			}
		}
		// finally, all of it from the files
		for _, x := range insts {
			if x.c != nil {
				closeIt(x)
			}
			open(x)
			compare(x)
			for a, want := range x.m.cache {
				b, exists, err := x.c.GetSubTree(a)
				if err != nil || !exists || !bytes.Equal(b, want) {
					fatalf("in the end, subtree %v is not in the files as written (exists=%v, %v)", a, exists, err)
				}
			}
			if x.m.init {
				if kf, err := readKeyFile(x.path); err != nil || kf.SeqNo != x.m.seqNo || kf.Borrowed != x.m.lost ||
					kf.Params != x.m.params || !bytes.Equal(kf.Sk, x.m.sk) {
					fatalf("key file %+v (%v)", kf, err)
				}
			}
			closeIt(x)
		}
		if len(kinds) > 4 && reopens > 0 {
			nontrivial(fmt.Sprintf("C22 %v", hist))
		}
		label("containers %d", len(insts))
		if reopens > 0 {
			label("reopened")
		}
	})
}
