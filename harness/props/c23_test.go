package props

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C23: a damaged key file is refused, not misread.

// judgeKeyFile says what the documented layout says of a key file: "bad" (must
// be refused), "ok" (must be opened, with these values), or "either".
func judgeKeyFile(b []byte) (verdict string, k keyFile) {
	if len(b) < 36 {
		return "bad", k
	}
	be := binary.BigEndian
	if fmt.Sprintf("%x", b[:8]) != keyMagic {
		return "bad", k
	}
	k.Raw = xmssmt.Params{Func: xmssmt.HashFunc(b[8]), N: be.Uint32(b[9:]), FullHeight: be.Uint32(b[13:]),
		D: be.Uint32(b[17:]), WotsW: be.Uint16(b[21:]), Prf: xmssmt.PrfConstruction(b[23])}
	k.SeqNo, k.Borrowed = be.Uint64(b[24:]), be.Uint32(b[32:])
	r := k.Raw
	okN := r.N == 16 || r.N == 24 || r.N == 32 || r.N == 64
	okW := r.WotsW == 4 || r.WotsW == 16 || r.WotsW == 256
	if !okN || !okW || r.Func > 2 || r.Prf > 1 || r.D == 0 || r.D > 63 || r.FullHeight > 63 || r.FullHeight%r.D != 0 {
		return "bad", k
	}
	k.Params = P{Func: int(r.Func), N: int(r.N), H: int(r.FullHeight), D: int(r.D), W: int(r.WotsW), NIST: r.Prf == 1}
	if k.SeqNo > k.Params.Max() {
		return "bad", k
	}
	if len(b) < 36+3*k.Params.N {
		return "bad", k
	}
	k.Sk = b[36 : 36+3*k.Params.N]
	if len(b) > 36+3*k.Params.N {
		return "either", k
	}
	return "ok", k
}

func TestC23_Damaged(t *testing.T) {
	check(t, 64000, 320000, func(t *rapid.T) {
		p := genLife(t, 2, 1, 3, 2, 6)
		k := genKey(t, p)
		dir := tmpDir()
		defer rmDir(dir)
		path := filepath.Join(dir, "key")
		seq := rapid.Uint64Range(0, p.Max()).Draw(t, "seqNo")
		withCache := rapid.IntRange(0, 2).Draw(t, "withCache") == 0
		if withCache {
			sk, _, err := derive(newCtx(t, p, 1), k, path)
			if err != nil {
				t.Fatalf("derive: %v", err)
			}
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(seq))
			if _, err := sk.Sign(nil); err != nil && seq < p.Max() {
				t.Fatalf("Sign: %v", err)
			}
			if err := sk.Close(); err != nil {
				t.Fatalf("Close: %v", err)
			}
		} else {
			writeKeyFile(path, k, seq, rapid.SampledFrom([]uint32{0, 1, 5}).Draw(t, "borrowed"))
		}
		good, e := os.ReadFile(path)
		if e != nil {
			infra("read: %v", e)
		}
		b := append([]byte(nil), good...)
		be := binary.BigEndian
		what := ""
		special := false
		switch kind := pick(t, "kind", "cut", 4, "magic", 3, "field", 10, "seqno", 4, "random", 2, "flip", 4, "text", 1, "directory", 1, "nothing", 1, "zeroes", 1); kind {
		case "cut":
			n := rapid.IntRange(0, len(b)-1).Draw(t, "cut")
			if rapid.IntRange(0, 2).Draw(t, "edge") == 0 {
				n = rapid.SampledFrom([]int{0, 1, 7, 8, 9, 23, 24, 31, 32, 35, 36, 37, 36 + p.N, 36 + 2*p.N, len(b) - 1}).Draw(t, "cutAt")
			}
			b = b[:n]
			what = fmt.Sprintf("cut to %d of %d bytes", n, len(good))
		case "magic":
			i := rapid.IntRange(0, 7).Draw(t, "at")
			b[i] ^= rapid.ByteRange(1, 255).Draw(t, "xor")
			if rapid.IntRange(0, 3).Draw(t, "all") == 0 {
				copy(b, rapid.SampledFrom([]string{"e77957607ef79446", "\x89PNG\r\n\x1a\n", "-----BEG", "\x7fELF\x02\x01\x01\x00"}).Draw(t, "other"))
			}
			what = fmt.Sprintf("magic %x", b[:8])
		case "field":
			off := rapid.SampledFrom([]int{8, 9, 13, 17, 21, 23}).Draw(t, "field")
			switch off {
			case 8, 23:
				b[off] = rapid.Byte().Draw(t, "val")
			case 21:
				be.PutUint16(b[off:], rapid.SampledFrom([]uint16{0, 1, 2, 8, 5, 15, 17, 32, 64, 128, 255, 257, 512, 4096, 65535, 4, 16, 256}).Draw(t, "val"))
			default:
				v := rapid.SampledFrom([]uint32{0, 1, 3, 5, 7, 8, 12, 16, 20, 24, 32, 33, 40, 48, 64, 65, 63, 96, 128, 1 << 8, 1 << 16, 1 << 24, 1 << 31, 0xffffffff, 100, 62, 60}).Draw(t, "val")
				if off == 9 && rapid.Bool().Draw(t, "sameInLowBits") {
					v = uint32(p.N) + 1<<rapid.IntRange(7, 31).Draw(t, "bit")
				}
				be.PutUint32(b[off:], v)
			}
			what = fmt.Sprintf("field at %d is %x", off, b[off:off+4])
		case "seqno":
			s := p.Max() + rapid.SampledFrom([]uint64{1, 2, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 62, 1 << 63}).Draw(t, "above")
			if rapid.IntRange(0, 3).Draw(t, "huge") == 0 {
				s = ^uint64(0) - rapid.Uint64Range(0, 3).Draw(t, "fromEnd")
			}
			be.PutUint64(b[24:], s)
			what = fmt.Sprintf("index %d of %d", s, p.Max())
		case "random":
			b = expand(rapid.Uint64().Draw(t, "x"), rapid.IntRange(0, 400).Draw(t, "n"))
			if rapid.Bool().Draw(t, "magicOK") && len(b) >= 8 {
				copy(b, good[:8])
			}
			what = fmt.Sprintf("%d random bytes", len(b))
		case "flip":
			i := rapid.IntRange(0, 8*36-1).Draw(t, "bit")
			b = flip(b, i)
			what = fmt.Sprintf("bit %d of the header", i)
		case "text":
			b = []byte(rapid.String().Draw(t, "text"))
			what = fmt.Sprintf("%q", b)
		case "directory":
			special = true
			what = "a directory"
		case "zeroes":
			from := rapid.IntRange(0, 30).Draw(t, "from")
			for i := from; i < len(b); i++ {
				b[i] = 0
			}
			what = fmt.Sprintf("zeroes from byte %d", from)
		default:
			what = "undamaged"
		}
		verdict, kf := judgeKeyFile(b)
		if special {
			verdict = "bad"
		}
		if verdict != "bad" && (kf.Params.TH() > 8 || float64(kf.Params.D)*float64(int(1)<<uint(kf.Params.TH()))*leafMs(kf.Params) > 60) {
			return // another key, with which it takes long to do anything
		}
		if verdict == "either" {
			return
		}
		eval()
		step("C23 %v %s", p, what)
		fatalf := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("%s\nkey file of %v, index %d: %s: %.100x", fmt.Sprintf(f, a...), p, seq, what, b)
		}
		removeFile(path)
		if special {
			if err := os.Mkdir(path, 0700); err != nil {
				infra("mkdir: %v", err)
			}
		} else if err := os.WriteFile(path, b, 0600); err != nil {
			infra("write: %v", err)
		}
		before := dirState(dir)
		how := rapid.IntRange(0, 2).Draw(t, "how")
		var err xmssmt.Error
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		var c xmssmt.PrivateKeyContainer
		if e := protect(func() {
			switch how {
			case 0:
				_, err = xmssmt.Sign(path, []byte("x"))
			case 1:
				c, err = xmssmt.OpenFSPrivateKeyContainer(path)
			default:
				sk, pk, _, err = xmssmt.LoadPrivateKey(path)
			}
		}); e != nil {
			fatalf("opening it: %v", e)
		}
		if verdict == "bad" {
			if err == nil {
				fatalf("it is opened without an error (%d)", how)
			}
			if err.Locked() {
				fatalf("it is called locked: %v", err)
			}
			if sk != nil || pk != nil || c != nil {
				fatalf("there is an error, and a key as well")
			}
			if after := dirState(dir); after != before {
				fatalf("it is refused, but the files changed\nbefore %s\nafter  %s", before, after)
			}
			label("%s", verdict)
			nontrivial(fmt.Sprintf("C23 %v cache=%v index=%d how=%d: %s", p, withCache, seq, how, what))
			// again, the same; then with the damage undone
			if _, _, _, err := xmssmt.LoadPrivateKey(path); err == nil || err.Locked() {
				fatalf("the second attempt to open it: %v", err)
			}
			if special {
				os.Remove(path)
			}
			if err := os.WriteFile(path, good, 0600); err != nil {
				infra("write: %v", err)
			}
			sk, pk, _, err := xmssmt.LoadPrivateKey(path)
			if err != nil {
				fatalf("with the damage undone, it can not be opened: %v", err)
			}
			if string(mustBytes(t, pk)) != string(k.PK()) {
				fatalf("with the damage undone, it is another key")
			}
			if err := sk.Close(); err != nil {
				fatalf("Close: %v", err)
			}
			return
		}
		label("%s", verdict)
		if how == 0 {
			if (err == nil) != (kf.SeqNo < kf.Params.Max()) {
				fatalf("Sign: %v", err)
			}
			return
		}
		if err != nil {
			fatalf("a proper key file is refused: %v", err)
		}
		if c != nil {
			q := c.Initialized()
			s, l, _ := c.GetSeqNo()
			key, _ := c.GetPrivateKey()
			if q == nil || *q != kf.Raw || uint64(s) != kf.SeqNo || l != kf.Borrowed || string(key) != string(kf.Sk) {
				fatalf("read as %+v, index %d, %d lost", q, s, l)
			}
			c.Close()
			return
		}
		if sk.Context().Params() != kf.Raw || uint64(sk.SeqNo()) != kf.SeqNo {
			fatalf("read as %+v, index %d", sk.Context().Params(), sk.SeqNo())
		}
		sk.Close()
	})
}
