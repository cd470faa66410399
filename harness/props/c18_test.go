package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C18: results do not depend on machine, threads or caching.

// vector computes, in the way described by c.Name and c.Threads, the results
// for the parameters, seeds, index and message of c: the public key, the
// signatures at the index and the ones after it, and the verdicts on them and
// on altered copies.
func vector(c cmdT) (out []string) {
	say := func(f string, a ...interface{}) { out = append(out, fmt.Sprintf(f, a...)) }
	if e := protect(func() { vectorOf(c, say) }); e != nil {
		say("%v", e)
	}
	return
}

func vectorOf(c cmdT, say func(string, ...interface{})) {
	has := func(s string) bool { return strings.Contains(c.Name, s) }
	p := c.P
	k := &ref.Key{P: p, PubSeed: unhex(c.Seeds[0]), SkSeed: unhex(c.Seeds[1]), SkPrf: unhex(c.Seeds[2])}
	msg := unhex(c.Msg)
	idx := c.N
	dir := ""
	if has("fs") {
		dir = tmpDir()
		defer rmDir(dir)
	}
	path := filepath.Join(dir, "key")
	var mem *memCtr
	var sk *xmssmt.PrivateKey
	var pk *xmssmt.PublicKey
	var err xmssmt.Error
	// the key, at the index
	if has("derive") {
		var ctx *xmssmt.Context
		if ctx, err = xmssmt.NewContext(lib(p)); err != nil {
			say("NewContext: %v", err)
			return
		}
		ctx.Threads = c.Threads
		if dir != "" {
			sk, pk, err = derive(ctx, k, path)
		} else {
			mem = newMemCtr()
			sk, pk, err = deriveInto(ctx, k, mem)
		}
		if err != nil {
			say("derive: %v", err)
			return
		}
		sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(idx))
	} else {
		if dir != "" {
			writeKeyFile(path, k, idx, 0)
			sk, pk, _, err = xmssmt.LoadPrivateKey(path)
		} else {
			mem = memCtrFor(k, idx)
			sk, pk, _, err = xmssmt.LoadPrivateKeyFrom(mem)
		}
		if err != nil {
			say("load: %v", err)
			return
		}
		sk.Context().Threads = c.Threads
	}
	pkb, _ := pk.MarshalBinary()
	say("pk %x", pkb)
	if has("pre") {
		sk.EnableSubTreePrecomputation()
	}
	for i := uint64(0); i < 3 && idx+i < p.Max(); i++ {
		if i > 0 && has("reopen") {
			if err = sk.Close(); err != nil {
				say("close: %v", err)
				return
			}
			if dir != "" {
				if has("cold") {
					removeFile(path + ".cache")
				}
				sk, pk, _, err = xmssmt.LoadPrivateKey(path)
			} else {
				mem = mem.reopened()
				if has("cold") {
					mem.cache = nil
				}
				sk, pk, _, err = xmssmt.LoadPrivateKeyFrom(mem)
			}
			if err != nil {
				say("reopen: %v", err)
				return
			}
			sk.Context().Threads = c.Threads
			b, _ := pk.MarshalBinary()
			if !bytes.Equal(b, pkb) {
				say("another public key after reopening: %x", b)
			}
		}
		var sig *xmssmt.Signature
		if has("stream") {
			sig, err = sk.SignFrom(&oddReader{data: msg, sizes: []int{3, 64, 1}, failAt: -1})
		} else {
			sig, err = sk.Sign(msg)
		}
		if err != nil {
			say("sign: %v", err)
			return
		}
		sb, _ := sig.MarshalBinary()
		say("sig %d %x", sig.SeqNo(), sb)
		ok, err := pk.Verify(sig, msg)
		ok2, err2 := pk.VerifyFrom(sig, &oddReader{data: msg, sizes: []int{5, 100}, failAt: -1})
		say("accepted %v %v %v %v", ok, err == nil, ok2, err2 == nil)
		// altered copies
		rnd := expand(c.N+i, 16)
		for j := 0; j < 4; j++ {
			bit := (int(rnd[4*j])<<16 | int(rnd[4*j+1])<<8 | int(rnd[4*j+2])) % (8 * (len(sb) - 4))
			bad := flip(sb, 32+bit)
			ok, err := xmssmt.Verify(pkb, bad, msg)
			say("bit %d: %v %v", bit, ok, err == nil)
		}
	}
	if err = sk.Close(); err != nil {
		say("close: %v", err)
	}
}

type platform struct {
	name    string
	variant string
	env     []string
	peer    *peer
}

func (pl *platform) vector(t *rapid.T, c cmdT) []string {
	if pl.peer == nil {
		pl.peer = newPeer(pl.variant, append([]string{"VERIF_SCRATCH_DIR=" + scratch}, pl.env...)...)
	}
	done := make(chan struct{})
	go func() {
		for i := 0; ; i++ {
			select {
			case <-done:
				return
			case <-time.After(2 * time.Second):
				if i < 300 {
					step("waiting for %s: %v", pl.name, c.P)
				}
			}
		}
	}()
	r, err := pl.peer.do(c)
	close(done)
	if err != nil {
		pl.peer = nil
		t.Fatalf("%s: %v: %v", pl.name, c.P, err)
	}
	if r.Err != "" {
		t.Fatalf("%s: %v: %v", pl.name, c.P, r.Err)
	}
	return r.Out
}

var platforms []*platform

func genPlatformParams(t *rapid.T) P {
	switch rapid.IntRange(0, 9).Draw(t, "shapeKind") {
	case 0:
		return genHigh(t, 10)
	case 1, 2, 3: // where the fourway hashes may be used
		p := P{Func: ref.SHAKE, N: rapid.SampledFrom([]int{32, 16, 24, 64}).Draw(t, "n"),
			W: rapid.SampledFrom([]int{16, 4, 256}).Draw(t, "w"), NIST: rapid.IntRange(0, 3).Draw(t, "nist") == 0}
		return genShape(t, p, 8, 1, 4, 4)
	}
	return genParams(t, 6, 5, 0)
}

func TestC18_Same(t *testing.T) {
	if platforms == nil {
		platforms = []*platform{
			{name: "without AVX2", variant: "plain", env: []string{"GODEBUG=cpu.avx2=off"}},
			{name: "on one processor", variant: "plain", env: []string{"GOMAXPROCS=1"}},
		}
		if binFor("386") != "" {
			platforms = append(platforms, &platform{name: "386", variant: "386"})
		} else {
			label("no 386 build")
		}
	}
	defer func() {
		for _, pl := range platforms {
			if pl.peer != nil {
				pl.peer.kill()
			}
		}
	}()
	check(t, 320, 9000, func(t *rapid.T) {
		p := genPlatformParams(t)
		// 32-bit hashing is some thirty times slower
		for float64(p.D)*float64(int(1)<<uint(p.TH()))*leafMs(p) > 12 && p.W > 4 {
			p.W = map[int]int{256: 16, 16: 4}[p.W]
		}
		k := genKey(t, p)
		idx := genIndex(t, p)
		msg := genMsg(t)
		if len(msg) > 20000 {
			msg = msg[:20000]
		}
		base := cmdT{Op: "vector", P: p, Threads: 1, N: idx, Msg: hex.EncodeToString(msg),
			Seeds: []string{hex.EncodeToString(k.PubSeed), hex.EncodeToString(k.SkSeed), hex.EncodeToString(k.SkPrf)}}
		way := func() cmdT {
			c := base
			c.Threads = rapid.SampledFrom([]int{1, 2, 3, 5, 8, 0}).Draw(t, "threads")
			parts := []string{}
			for _, s := range []string{"fs", "derive", "pre", "reopen", "cold", "stream"} {
				if rapid.Bool().Draw(t, s) {
					parts = append(parts, s)
				}
			}
			c.Name = strings.Join(parts, ",")
			return c
		}
		c0 := way()
		step("C18 %v %s", p, c0.Name)
		want := vector(c0)
		compare := func(how string, got []string) {
			eval()
			for i := range got {
				if i >= len(want) || got[i] != want[i] {
					w := "nothing"
					if i < len(want) {
						w = want[i]
					}
					t.Fatalf("%v, index %d: %s gives %.300s, but here (threads=%d %s): %.300s", p, idx, how, got[i], c0.Threads, c0.Name, w)
				}
			}
			if len(got) != len(want) {
				t.Fatalf("%v, index %d: %s gives less", p, idx, how)
			}
			nontrivial(fmt.Sprintf("C18 %v idx=%d len(msg)=%d [threads=%d %s] = [%s] %.20s", p, idx, len(msg), c0.Threads, c0.Name, how, want[0]))
			label("%s", strings.SplitN(how, ",", 2)[0])
		}
		c := way()
		compare(fmt.Sprintf("the same process, threads=%d %s", c.Threads, c.Name), vector(c))
		for _, pl := range platforms {
			c := way()
			compare(fmt.Sprintf("%s, threads=%d %s", pl.name, c.Threads, c.Name), pl.vector(t, c))
		}
		if p.Func == ref.SHAKE && !p.NIST {
			label("fourway possible")
		}
	})
}
