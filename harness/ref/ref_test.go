package ref

import (
	"crypto/sha3"
	"encoding/hex"
	"testing"
)

// The published test vectors (SHAKE128-10 of the public key and of the
// signature on the byte 37 at half the maximal index, seeds 0,1,2,...), made
// with the reference implementation of the RFC's authors.
func TestVectors(t *testing.T) {
	for _, v := range []struct {
		p       Params
		pk, sig string
	}{
		{Params{SHA2, 32, 10, 1, 16, false}, "7de72d192121f414d4bb", "8b6cb278d50a3694ca38"},
		{Params{SHA2, 64, 10, 1, 16, false}, "74ee7c42b4e42a424ed9", "b9e63b0376a550eabe1b"},
		{Params{SHAKE, 32, 10, 1, 16, false}, "764614ee2ce5e4bf0114", "3e9035cffa0fd4be98bd"},
		{Params{SHAKE, 64, 10, 1, 16, false}, "e47fe831b6ee463e2881", "ce2dc09cd7ad8c87ae06"},
		{Params{SHA2, 24, 10, 1, 16, true}, "5933d4b1e696804718c7", "6ec9da2e05da544d9c5d"},
		{Params{SHAKE256, 32, 10, 1, 16, false}, "cef3d38791d56efee1b3", "9939a0f87502df5d1e31"},
		{Params{SHAKE256, 24, 10, 1, 16, true}, "7fa280e502275858b27b", "7782c54424c9ca082926"},
		{Params{SHA2, 32, 20, 4, 16, false}, "9df4c75282451bf2bc53", "fd4ff4c18801147b2804"},
		{Params{SHA2, 64, 20, 4, 16, false}, "fdeb0cc4fed643bf70ce", "fbeb33a7aed7af7ea526"},
		{Params{SHAKE, 32, 20, 4, 16, false}, "dbe6fc388fbd610b3401", "2c2a66cae9a16414088d"},
		{Params{SHAKE, 64, 20, 4, 16, false}, "3739e7d3668932d9ca44", "ec8d62bb9d4ba74c6729"},
		{Params{SHA2, 24, 20, 4, 16, true}, "eef50cfa8f267939ad08", "759e579a56097da369b5"},
		{Params{SHAKE256, 32, 20, 4, 16, false}, "2d6ae135fda1077788ca", "09a73575932668ca5e8d"},
		{Params{SHAKE256, 24, 20, 4, 16, true}, "21d799da214da955d915", "45f8be8e21f1af08c828"},
	} {
		v := v
		t.Run(v.p.String(), func(t *testing.T) {
			t.Parallel()
			seed := make([]byte, 3*v.p.N)
			for i := range seed {
				seed[i] = byte(i)
			}
			n := v.p.N
			k := NewKey(v.p, seed[2*n:], seed[:n], seed[n:2*n])
			h := func(b []byte) string { return hex.EncodeToString(sha3.SumSHAKE128(b, 10)) }
			if got := h(k.PK()[4:]); got != v.pk {
				t.Errorf("public key: %s, want %s", got, v.pk)
			}
			sig := k.Sign(1<<uint(v.p.H-1), []byte{37})
			if got := h(sig[4:]); got != v.sig {
				t.Errorf("signature: %s, want %s", got, v.sig)
			}
			if !Verify(v.p, k.PK(), sig, []byte{37}) {
				t.Errorf("own signature refused")
			}
		})
	}
}
