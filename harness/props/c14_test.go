package props

import (
	"bytes"
	"encoding"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"
)

// C14: signatures and public keys survive serialisation.

// the library's types are used through these interfaces by encoders
var (
	_ encoding.BinaryMarshaler   = (*xmssmt.Signature)(nil)
	_ encoding.BinaryUnmarshaler = (*xmssmt.Signature)(nil)
	_ encoding.BinaryMarshaler   = (*xmssmt.PublicKey)(nil)
	_ encoding.TextMarshaler     = (*xmssmt.PublicKey)(nil)
	_ encoding.TextUnmarshaler   = (*xmssmt.PublicKey)(nil)
)

type writerInto interface {
	MarshalBinary() ([]byte, error)
	WriteInto([]byte) error
}

func checkInto(t *rapid.T, what string, o writerInto, enc []byte) {
	again := mustBytes(t, o)
	if !bytes.Equal(again, enc) {
		t.Fatalf("%s: encoding it twice gives different bytes", what)
	}
	// the result is the caller's
	for i := range again {
		again[i] ^= 0xff
	}
	extra := rapid.IntRange(0, 9).Draw(t, "extra")
	buf := bytes.Repeat([]byte{0xa5}, len(enc)+extra)
	if err := o.WriteInto(buf); err != nil {
		t.Fatalf("%s: WriteInto: %v", what, err)
	}
	if !bytes.Equal(buf[:len(enc)], enc) {
		t.Fatalf("%s: WriteInto gives other bytes than MarshalBinary", what)
	}
	if !bytes.Equal(buf[len(enc):], bytes.Repeat([]byte{0xa5}, extra)) {
		t.Fatalf("%s: WriteInto writes beyond the %d bytes of the encoding", what, len(enc))
	}
	if !bytes.Equal(mustBytes(t, o), enc) {
		t.Fatalf("%s: overwriting an encoding changed the object", what)
	}
}

func checkSig(t *rapid.T, p P, b []byte, idx uint64, dirty *xmssmt.Signature) {
	if len(b) != 4+p.SigBytes() {
		t.Fatalf("%v: a signature has %d bytes, want %d", p, len(b), 4+p.SigBytes())
	}
	in := append([]byte(nil), b...)
	if rapid.Bool().Draw(t, "spare") {
		in = append(make([]byte, 0, len(b)+64), b...)
	}
	s := dirty
	if err := s.UnmarshalBinary(in); err != nil {
		t.Fatalf("%v: a valid encoding of a signature is refused: %v", p, err)
	}
	if !bytes.Equal(in, b) {
		t.Fatalf("%v: decoding changed its input", p)
	}
	for i := range in {
		in[i] ^= 0x5a // the caller reuses the buffer
	}
	if s.Context().Params() != lib(p) || uint64(s.SeqNo()) != idx {
		t.Fatalf("%v: index %d decoded to %v, index %d", p, idx, s.Context().Params(), s.SeqNo())
	}
	if int(s.Context().SignatureSize()) != p.SigBytes() {
		t.Fatalf("%v: SignatureSize() = %d, want %d", p, s.Context().SignatureSize(), p.SigBytes())
	}
	if out := mustBytes(t, s); !bytes.Equal(out, b) {
		t.Fatalf("%v: a signature changes when it is decoded and encoded again", p)
	}
	checkInto(t, p.String(), s, b)
	if want := fmt.Sprintf("seqno=%d", idx); !bytes.Contains([]byte(s.String()), []byte(want)) {
		t.Fatalf("%v: %q does not say %s", p, s.String(), want)
	}
}

func checkPK(t *rapid.T, p P, b []byte, dirty *xmssmt.PublicKey) {
	if len(b) != 4+2*p.N {
		t.Fatalf("%v: a public key has %d bytes, want %d", p, len(b), 4+2*p.N)
	}
	in := append([]byte(nil), b...)
	pk := dirty
	text := rapid.Bool().Draw(t, "text")
	if text {
		tx := []byte(base64.StdEncoding.EncodeToString(b))
		tx2 := append([]byte(nil), tx...)
		if err := pk.UnmarshalText(tx); err != nil {
			t.Fatalf("%v: a valid text form is refused: %v", p, err)
		}
		if !bytes.Equal(tx, tx2) {
			t.Fatalf("%v: decoding changed its input", p)
		}
		for i := range tx {
			tx[i] = 'A'
		}
	} else {
		if err := pk.UnmarshalBinary(in); err != nil {
			t.Fatalf("%v: a valid encoding of a public key is refused: %v", p, err)
		}
		if !bytes.Equal(in, b) {
			t.Fatalf("%v: decoding changed its input", p)
		}
		for i := range in {
			in[i] ^= 0x5a
		}
	}
	if pk.Context().Params() != lib(p) {
		t.Fatalf("%v: decoded to %v", p, pk.Context().Params())
	}
	if out := mustBytes(t, pk); !bytes.Equal(out, b) {
		t.Fatalf("%v: a public key changes when it is decoded and encoded again", p)
	}
	tx, err := pk.MarshalText()
	if err != nil || string(tx) != base64.StdEncoding.EncodeToString(b) {
		t.Fatalf("%v: text form %q, %v", p, tx, err)
	}
	checkInto(t, p.String(), pk, b)
	// as a field of something encoded as JSON
	j, err := json.Marshal(map[string]interface{}{"k": pk})
	if err != nil {
		t.Fatalf("%v: json: %v", p, err)
	}
	var back struct{ K xmssmt.PublicKey }
	if err := json.Unmarshal(j, &back); err != nil {
		t.Fatalf("%v: json: %v", p, err)
	}
	if out := mustBytes(t, &back.K); !bytes.Equal(out, b) {
		t.Fatalf("%v: a public key changes on its way through JSON", p)
	}
}

// Arbitrary objects: any bytes of the right length are an encoding.
func TestC14_Arbitrary(t *testing.T) {
	check(t, 60000, 300000, func(t *rapid.T) {
		var sig xmssmt.Signature
		var pk xmssmt.PublicKey
		// the same objects are decoded into again and again
		for i := rapid.IntRange(1, 3).Draw(t, "reuse"); i > 0; i-- {
			p := genBase(t)
			if rapid.Bool().Draw(t, "single") {
				p.D = 1
				p.H = rapid.IntRange(1, 63).Draw(t, "h")
			} else {
				p.D = rapid.IntRange(2, 40).Draw(t, "d")
				p.H = p.D * rapid.IntRange(1, 63/p.D).Draw(t, "th")
			}
			b := append(p.Code(), expand(rapid.Uint64().Draw(t, "body"), p.SigBytes())...)
			// an index that is valid, mostly
			idx := rapid.Uint64().Draw(t, "idx")
			if rapid.IntRange(0, 3).Draw(t, "edge") == 0 {
				idx = genIndex(t, p)
			}
			if 8*p.IndexBytes() < 64 {
				idx &= 1<<uint(8*p.IndexBytes()) - 1
			}
			for x, v := p.IndexBytes()-1, idx; x >= 0; x-- {
				b[4+x] = byte(v)
				v >>= 8
			}
			step("%v", p)
			checkSig(t, p, b, idx, &sig)
			checkPK(t, p, append(p.Code(), expand(rapid.Uint64().Draw(t, "pkBody"), 2*p.N)...), &pk)
			eval()
			nontrivial(fmt.Sprintf("C14 %v %d", p, idx))
		}
	})
}

// Objects made by keys: the decoded ones are as good.
func TestC14_Genuine(t *testing.T) {
	check(t, 2000, 10000, func(t *rapid.T) {
		p := genParams(t, 4, 5, 0)
		k := genKey(t, p)
		idx := genIndex(t, p)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(memCtrFor(k, idx))
		if err != nil {
			t.Fatalf("load: %v", err)
		}
		defer sk.Close()
		msg := genShortMsg(t)
		sig, err := sk.Sign(msg)
		if err != nil {
			t.Fatalf("Sign: %v", err)
		}
		b, pkb := mustBytes(t, sig), mustBytes(t, pk)
		checkInto(t, p.String(), sig, b)
		checkInto(t, p.String(), pk, pkb)
		same(t, "signature", b, k.Sign(idx, msg))
		same(t, "public key", pkb, k.PK())
		var sig2 xmssmt.Signature
		var pk2 xmssmt.PublicKey
		checkSig(t, p, b, idx, &sig2)
		checkPK(t, p, pkb, &pk2)
		for _, x := range []struct {
			pk  *xmssmt.PublicKey
			sig *xmssmt.Signature
		}{{pk, sig}, {pk, &sig2}, {&pk2, sig}, {&pk2, &sig2}} {
			if ok, err := x.pk.Verify(x.sig, msg); !ok || err != nil {
				t.Fatalf("%v: a decoded signature or key does not verify: %v", p, err)
			}
			if ok, _ := x.pk.Verify(x.sig, append([]byte{1}, msg...)); ok {
				t.Fatalf("%v: a decoded signature or key verifies something else", p)
			}
		}
		eval()
		nontrivial(fmt.Sprintf("C14 genuine %v %d", p, idx))
	})
}
