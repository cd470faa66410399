package props

import (
	"fmt"
	"io"
	"testing"

	"github.com/bwesterb/go-xmssmt"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// longMsg is a long message: a block repeated, with one byte altered if wanted.
type longMsg struct {
	block []byte
	n     int64 // length
	alter int64 // -1: none
	chunk int   // at most so much at once
	pos   int64
}

func (m longMsg) reader() io.Reader { return &m }

func (m *longMsg) Read(b []byte) (int, error) {
	if m.pos == m.n {
		return 0, io.EOF
	}
	b = b[:min(int64(len(b)), int64(m.chunk), m.n-m.pos)]
	n := copy(b, m.block[m.pos%int64(len(m.block)):])
	if m.alter >= m.pos && m.alter < m.pos+int64(n) {
		b[m.alter-m.pos] ^= 1
	}
	if m.pos>>26 != (m.pos+int64(n))>>26 {
		step("long message, at %d", m.pos)
	}
	m.pos += int64(n)
	return n, nil
}

// Messages of any length are hashed entirely.
func TestC01_Long(t *testing.T) { longMessages(t, "C01", 64, 400) }
func TestC02_Long(t *testing.T) { longMessages(t, "C02", 32, 200) }
func TestC03_Long(t *testing.T) { longMessages(t, "C03", 32, 200) }

func longMessages(t *testing.T, id string, q, th int) {
	block := expand(7, 1<<20)
	check(t, q, th, func(t *rapid.T) {
		p := genParams(t, 3, 2, 0)
		bit := rapid.IntRange(20, 24).Draw(t, "bit")
		if rapid.IntRange(0, 7).Draw(t, "long") == 0 {
			// beyond 2^32 bits
			bit = 29
			if thorough {
				bit = rapid.IntRange(25, 32).Draw(t, "longBit")
			}
			p.Func, p.N = ref.SHA2, 32
			p.NIST = false
		}
		k := genKey(t, p)
		idx := genIndex(t, p)
		m := longMsg{block: block, alter: -1, chunk: rapid.SampledFrom([]int{1 << 20, 4096, 32768, 1000, 65537}).Draw(t, "chunk")}
		m.n = int64(1)<<uint(bit) + rapid.Int64Range(-100, 100).Draw(t, "more")
		what := fmt.Sprintf("%v index %d, a message of %d bytes", p, idx, m.n)
		step("%s %s", id, what)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(memCtrFor(k, idx))
		if err != nil {
			t.Fatalf("%s: load: %v", what, err)
		}
		defer sk.Close()
		sig, err := sk.SignFrom(m.reader())
		if err != nil {
			t.Fatalf("%s: sign: %v", what, err)
		}
		same(t, "signature of "+what, mustBytes(t, sig), k.SignOdd(idx, nil, ref.Odd{Digest: p.HMsgFrom(k.R(idx), k.Root, idx, m.reader())}))
		if ok, err := pk.VerifyFrom(sig, m.reader()); !ok {
			t.Fatalf("%s: refused: %v", what, err)
		}
		o := m
		switch rapid.IntRange(0, 3).Draw(t, "wrong") {
		case 0:
			o.n--
		case 1:
			o.n++
		case 2:
			o.alter = m.n - 1 - rapid.Int64Range(0, 300).Draw(t, "fromEnd")
		default:
			o.alter = rapid.Int64Range(0, m.n-1).Draw(t, "at")
		}
		if ok, _ := pk.VerifyFrom(sig, o.reader()); ok {
			t.Fatalf("%s: accepted for another message (length %d, altered at %d)", what, o.n, o.alter)
		}
		evalN(3)
		nontrivial(id + " " + what)
		label("message of 2^%d", bit)
	})
}
