package props

import (
	"bytes"
	"fmt"
	"io"
	"sync"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C26: verification is pure, and safe to run concurrently.

type material struct {
	p       P
	k       *ref.Key
	pk      *xmssmt.PublicKey
	pkb     []byte
	sigs    []*xmssmt.Signature
	sigbs   [][]byte
	msgs    [][]byte
	genuine []bool // of sigs[i] with msgs[i]
}

func genMaterial(t *rapid.T, budget float64) *material {
	p := genParams(t, budget, 3, 6)
	k := genKey(t, p)
	m := &material{p: p, k: k}
	n := rapid.IntRange(1, 3).Draw(t, "nSigs")
	sk, pk, err := deriveInto(newCtx(t, p, 1), k, newMemCtr())
	if err != nil {
		t.Fatalf("derive: %v", err)
	}
	m.pk = pk
	fromBytes := rapid.Bool().Draw(t, "fromBytes")
	m.pkb = mustBytes(t, pk)
	if fromBytes {
		m.pk = new(xmssmt.PublicKey)
		if err := m.pk.UnmarshalBinary(append([]byte(nil), m.pkb...)); err != nil {
			t.Fatalf("UnmarshalBinary: %v", err)
		}
	}
	if rapid.Bool().Draw(t, "somewhere") {
		sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(genIndex(t, p)))
	}
	for i := 0; i < n && uint64(sk.SeqNo()) < p.Max(); i++ {
		msg := genMsg(t)
		if len(msg) > 5000 {
			msg = msg[:5000]
		}
		sig, err := sk.Sign(msg)
		if err != nil {
			t.Fatalf("Sign: %v", err)
		}
		b := mustBytes(t, sig)
		ok := true
		switch rapid.IntRange(0, 3).Draw(t, "spoil") {
		case 0:
			c := append([]byte(nil), b...)
			at := rapid.IntRange(4+p.IndexBytes(), len(c)-1).Draw(t, "at")
			c[at] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
			b, ok = c, false
		case 1:
			msg = append(append([]byte(nil), msg...), 0)
			ok = false
		}
		if !ok || fromBytes {
			sig = new(xmssmt.Signature)
			if err := sig.UnmarshalBinary(append([]byte(nil), b...)); err != nil {
				t.Fatalf("UnmarshalBinary: %v", err)
			}
		}
		m.sigs, m.sigbs, m.msgs = append(m.sigs, sig), append(m.sigbs, b), append(m.msgs, msg)
		m.genuine = append(m.genuine, ok)
	}
	sk.Close()
	return m
}

// one carries out a random operation on the shared objects.
func (m *material) one(kind string, i int) error {
	sig, sigb, msg := m.sigs[i], m.sigbs[i], m.msgs[i]
	verdict := func(what string, ok bool, err error) error {
		if ok != m.genuine[i] || ok && err != nil || !ok && err == nil {
			return fmt.Errorf("%s says %v (%v), want %v", what, ok, err, m.genuine[i])
		}
		return nil
	}
	switch kind {
	case "verify":
		ok, err := m.pk.Verify(sig, msg)
		if err != nil {
			return verdict("Verify", ok, err)
		}
		return verdict("Verify", ok, nil)
	case "verifyFrom":
		ok, err := m.pk.VerifyFrom(sig, &oddReader{data: msg, sizes: []int{7, 64, 1000}, failAt: -1})
		if err != nil {
			return verdict("VerifyFrom", ok, err)
		}
		return verdict("VerifyFrom", ok, nil)
	case "bytes":
		ok, err := xmssmt.Verify(m.pkb, sigb, msg)
		if err != nil {
			return verdict("Verify of bytes", ok, err)
		}
		return verdict("Verify of bytes", ok, nil)
	case "failing source":
		ok, err := m.pk.VerifyFrom(sig, &oddReader{data: msg, failAt: len(msg) / 2, err: io.ErrUnexpectedEOF})
		if ok || err == nil {
			return fmt.Errorf("VerifyFrom a failing source says %v", ok)
		}
	case "marshal":
		b, err := sig.MarshalBinary()
		if err != nil || !bytes.Equal(b, sigb) {
			return fmt.Errorf("the encoding of the signature changed (%v)", err)
		}
		buf := make([]byte, len(sigb)+3)
		if err := sig.WriteInto(buf); err != nil || !bytes.Equal(buf[:len(sigb)], sigb) {
			return fmt.Errorf("the encoding of the signature changed (%v)", err)
		}
	case "marshalPk":
		b, err := m.pk.MarshalBinary()
		if err != nil || !bytes.Equal(b, m.pkb) {
			return fmt.Errorf("the encoding of the public key changed (%v)", err)
		}
		tx, err := m.pk.MarshalText()
		if err != nil {
			return err
		}
		var pk2 xmssmt.PublicKey
		if err := pk2.UnmarshalText(tx); err != nil {
			return err
		}
	case "print":
		_ = sig.String()
		_ = fmt.Sprint(sig.SeqNo())
		c := m.pk.Context()
		if c.Params() != lib(m.p) || sig.Context().Params() != lib(m.p) {
			return fmt.Errorf("the parameters changed")
		}
		_, _, _, _, _ = c.Name(), c.Oid(), c.MT(), c.FromNIST(), c.FromRFC()
		_ = c.Params().String()
		c = sig.Context()
		_, _, _, _, _ = c.Name(), c.Oid(), c.MT(), c.FromNIST(), c.FromRFC()
	}
	return nil
}

var c26Kinds = []interface{}{"verify", 6, "verifyFrom", 3, "bytes", 3, "failing source", 1, "marshal", 2, "marshalPk", 2, "print", 2}

func (m *material) unchanged(t *rapid.T, msgs, sigbs [][]byte, pkb []byte) {
	for i := range m.sigs {
		if !bytes.Equal(m.msgs[i], msgs[i]) || !bytes.Equal(m.sigbs[i], sigbs[i]) || !bytes.Equal(m.pkb, pkb) {
			t.Fatalf("verification changed its input")
		}
		if err := m.one("marshal", i); err != nil {
			t.Fatalf("%v", err)
		}
	}
	if err := m.one("marshalPk", 0); err != nil {
		t.Fatalf("%v", err)
	}
}

func TestC26_Pure(t *testing.T) {
	q, th := 700, 12000
	if raceBuild {
		q, th = 240, 4000
	}
	check(t, q, th, func(t *rapid.T) {
		var ms []*material
		for i := rapid.IntRange(1, 3).Draw(t, "keys"); i > 0; i-- {
			m := genMaterial(t, 3)
			if len(m.sigs) > 0 {
				ms = append(ms, m)
			}
		}
		if len(ms) == 0 {
			return
		}
		var copies [][][]byte
		cp := func(x [][]byte) (r [][]byte) {
			for _, b := range x {
				r = append(r, append([]byte(nil), b...))
			}
			return
		}
		for _, m := range ms {
			copies = append(copies, cp(m.msgs), cp(m.sigbs), cp([][]byte{m.pkb}))
		}
		type op struct {
			m, s int
			kind string
		}
		goroutines := rapid.IntRange(1, 6).Draw(t, "goroutines")
		plans := make([][]op, goroutines)
		for g := range plans {
			for i := rapid.IntRange(2, 6).Draw(t, "nOps"); i > 0; i-- {
				mi := rapid.IntRange(0, len(ms)-1).Draw(t, "m")
				plans[g] = append(plans[g], op{mi, rapid.IntRange(0, len(ms[mi].sigs)-1).Draw(t, "s"), pick(t, "op", c26Kinds...)})
			}
		}
		step("%v %v", ms[0].p, plans)
		errs := make([]error, goroutines)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for g := range plans {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				var err error
				if e := protect(func() {
					<-gate
					for _, o := range plans[g] {
						if err = ms[o.m].one(o.kind, o.s); err != nil {
							err = fmt.Errorf("%v: %v", ms[o.m].p, err)
							return
						}
					}
				}); e != nil {
					err = e
				}
				errs[g] = err
			}(g)
		}
		close(gate)
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				t.Fatalf("%v\n%v", err, plans)
			}
		}
		n := 0
		for i, m := range ms {
			m.unchanged(t, copies[3*i], copies[3*i+1], copies[3*i+2][0])
			for s := range m.sigs {
				if err := m.one("verify", s); err != nil {
					t.Fatalf("%v again: %v", m.p, err)
				}
				n++
			}
		}
		for _, pl := range plans {
			evalN(len(pl))
		}
		if goroutines > 1 {
			nontrivial(fmt.Sprintf("C26 %v race=%v %v sigs=%d", ms[0].p, raceBuild, plans, n))
		}
		label("race=%v", raceBuild)
		label("goroutines>1=%v", goroutines > 1)
	})
}
