package props

import (
	"bytes"
	"fmt"
	"path/filepath"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C02: what is signed is accepted, by every way to verify.

// accepts verifies sig on msg in every way and reports the common verdict.
func accepts(t *rapid.T, pk *xmssmt.PublicKey, sig *xmssmt.Signature, msg []byte) bool {
	t.Helper()
	pkb, sigb := mustBytes(t, pk), mustBytes(t, sig)
	return acceptsBytes(t, pkb, sigb, msg, pk, sig)
}

// acceptsBytes: pk and sig (the decoded objects) may be nil.
func acceptsBytes(t *rapid.T, pkb, sigb, msg []byte, pk *xmssmt.PublicKey, sig *xmssmt.Signature) bool {
	t.Helper()
	verdict := func(how string, ok bool, err error) bool {
		t.Helper()
		if ok != (err == nil) {
			t.Fatalf("%s returns %v together with the error %v", how, ok, err)
		}
		return ok
	}
	ok, err := xmssmt.Verify(pkb, sigb, msg)
	r := verdict("Verify of bytes", ok, asError(err))
	if pk == nil || sig == nil {
		var pk2 xmssmt.PublicKey
		var sig2 xmssmt.Signature
		if pk2.UnmarshalBinary(pkb) != nil || sig2.UnmarshalBinary(sigb) != nil {
			if r {
				t.Fatalf("Verify accepts what can not be decoded")
			}
			return false
		}
		pk, sig = &pk2, &sig2
	}
	ok, err = pk.Verify(sig, msg)
	if verdict("Verify", ok, asError(err)) != r {
		t.Fatalf("Verify says %v, and on the serialised key and signature %v", ok, r)
	}
	ok, err = pk.VerifyFrom(sig, genReader(t, msg))
	if verdict("VerifyFrom", ok, asError(err)) != r {
		t.Fatalf("VerifyFrom says %v, Verify %v (%v)", ok, r, err)
	}
	return r
}

// asError avoids non-nil interfaces holding nil.
func asError(err xmssmt.Error) error {
	if err == nil {
		return nil
	}
	return err
}

func TestC02_Accepted(t *testing.T) {
	check(t, 2400, 12000, func(t *rapid.T) {
		p := genParams(t, 20, 3, 0)
		k := genKey(t, p)
		onDisk := rapid.Bool().Draw(t, "onDisk")
		ctx := newCtx(t, p, rapid.IntRange(0, 2).Draw(t, "threads"))
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		var err xmssmt.Error
		var mem *memCtr
		path := ""
		if onDisk {
			d := tmpDir()
			defer rmDir(d)
			path = filepath.Join(d, "key")
			sk, pk, err = derive(ctx, k, path)
		} else {
			mem = newMemCtr()
			sk, pk, err = deriveInto(ctx, k, mem)
		}
		if err != nil {
			t.Fatalf("derive: %v", err)
		}
		defer func() { sk.Close() }()
		reload := func() {
			if e := sk.Close(); e != nil {
				t.Fatalf("Close: %v", e)
			}
			var pk2 *xmssmt.PublicKey
			if onDisk {
				sk, pk2, _, err = xmssmt.LoadPrivateKey(path)
			} else {
				mem = mem.reopened()
				sk, pk2, _, err = xmssmt.LoadPrivateKeyFrom(mem)
			}
			if err != nil {
				t.Fatalf("reopen: %v", err)
			}
			if rapid.Bool().Draw(t, "useReloadedPk") {
				pk = pk2
			}
		}
		seqNo := uint64(0)
		if rapid.IntRange(0, 2).Draw(t, "jump") == 0 {
			seqNo = genIndex(t, p)
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(seqNo))
		}
		if rapid.IntRange(0, 3).Draw(t, "precompute") == 0 {
			sk.EnableSubTreePrecomputation()
		}
		var text xmssmt.PublicKey
		txt, terr := pk.MarshalText()
		if terr != nil {
			t.Fatalf("MarshalText: %v", terr)
		}
		if e := text.UnmarshalText(txt); e != nil {
			t.Fatalf("UnmarshalText: %v", e)
		}
		n := rapid.IntRange(1, 6).Draw(t, "n")
		cross := false
		for i := 0; i < n && seqNo < p.Max(); i++ {
			msg := genMsg(t)
			step("C02 %v sign %d", p, seqNo)
			var sig *xmssmt.Signature
			how := "Sign"
			keep := append([]byte(nil), msg...)
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 0:
				sig, err = sk.Sign(msg)
			case 3:
				if onDisk {
					// the one-shot helper on the closed key
					how = "helper"
					if e := sk.Close(); e != nil {
						t.Fatalf("Close: %v", e)
					}
					b, e := xmssmt.Sign(path, msg)
					if e != nil {
						t.Fatalf("Sign(path): %v", e)
					}
					sig = new(xmssmt.Signature)
					if e := sig.UnmarshalBinary(b); e != nil {
						t.Fatalf("Sign(path) returned an undecodable signature: %v", e)
					}
					sk, _, _, err = xmssmt.LoadPrivateKey(path)
					break
				}
				fallthrough
			default:
				how = "SignFrom"
				sig, err = sk.SignFrom(genReader(t, msg))
			}
			if err != nil {
				t.Fatalf("%s at %d of %d: %v", how, seqNo, p.Max(), err)
			}
			if !bytes.Equal(msg, keep) {
				t.Fatalf("%s changed the message", how)
			}
			if !accepts(t, pk, sig, msg) {
				t.Fatalf("the signature by %s at index %d of a %d byte message is refused", how, sig.SeqNo(), len(msg))
			}
			if rapid.Bool().Draw(t, "textKey") && !accepts(t, &text, sig, msg) {
				t.Fatalf("the signature at index %d is refused under the key's text form", sig.SeqNo())
			}
			eval()
			seqNo++
			cross = cross || seqNo%(1<<uint(p.TH())) == 0
			nontrivial(fmt.Sprintf("C02 %v %s idx=%d len(msg)=%d disk=%v", p, how, sig.SeqNo(), len(msg), onDisk))
			label("%s", how)
			if rapid.IntRange(0, 3).Draw(t, "reload") == 0 {
				reload()
			}
		}
		if cross {
			label("crossed a subtree boundary")
		}
	})
}
