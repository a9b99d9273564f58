//go:build all || c26

package main

// C26: the AES-SIV cipher behaves as an AEAD and as RFC 5297 says.

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/siv_aead"
	"pgregory.net/rapid"
)

type c26Msg struct {
	N     int    `json:"n"`
	Seed  uint64 `json:"seed"`
	Nonce []byte `json:"nonce"`
	AD    []byte `json:"ad"`
	Dst   int    `json:"dst"`
	Cap   int    `json:"cap"` // spare capacity of dst
	Kind  string `json:"kind"`
	A     int    `json:"a"`
	B     int    `json:"b"`
}

type c26Case struct {
	Key  uint64   `json:"key"`
	Msgs []c26Msg `json:"msgs"`
	Conc bool     `json:"conc,omitempty"`
}

func init() {
	reg(Prop{
		ID: "C26", Quick: 80000, Thorough: 3000000,
		Rule: "a case is a 64-byte key and 1-6 messages of 0-5000 bytes (weighted to cipher-block boundaries; some to 4 MB) with 16-byte nonces, associated data of 0-80 bytes (some to 1 MB), and output buffers with existing content and spare capacity, each also opened after an alteration; one after another or at once; non-trivial = at least one altered message was refused; oracle: an independent RFC 5297 implementation",
		Fixed: func(tier Tier, seed uint64) []any {
			var out []any
			n := 24
			if tier == "thorough" {
				n = 200
			}
			for i := 0; i < n; i++ {
				s := seed*1009 + uint64(i)
				b := prng(s, 64)
				c := c26Case{Key: s}
				for j, kind := range []string{"flip", "ad", "nonce", "adlen", "trunc", "key"} {
					m := c26Msg{Seed: s*7 + uint64(j), Nonce: prng(s+uint64(j)+77, 16), Kind: kind, A: int(b[j]) << 8, B: int(b[8+j]) % 8, N: []int{1 << 20, 1<<20 + 1, 1<<18 + int(b[20+j]), 2<<20 + int(b[30+j]), 100000, 4<<20 + 17}[(i+j)%6], Cap: []int{0, 5 << 20}[j%2]}
					m.AD = prng(m.Seed+3, []int{0, 24, 5000, 70000, 1 << 20}[(i+2*j)%5])
					c.Msgs = append(c.Msgs, m)
				}
				out = append(out, c)
			}
			return out
		},
		Setup: "16-byte nonces, 64-byte keys; in-place encryption is not claimed",
	}, func(t *rapid.T, tier Tier) c26Case {
		c := c26Case{Key: rapid.Uint64().Draw(t, "key"), Conc: rapid.IntRange(0, 4).Draw(t, "conc") == 0}
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
			l := fmt.Sprint("m", i)
			m := c26Msg{Seed: rapid.Uint64().Draw(t, l+"/seed"), Nonce: genNonce16(t, l+"/nonce"), Dst: rapid.SampledFrom([]int{0, 0, 1, 16, 17, 100}).Draw(t, l+"/dst"), Cap: rapid.SampledFrom([]int{0, 1, 16, 50, 6000}).Draw(t, l+"/cap")}
			m.N = rapid.OneOf(rapid.SampledFrom([]int{0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 4095, 4096, 4097}), rapid.IntRange(0, 100), rapid.IntRange(0, 5000)).Draw(t, l+"/n")
			ad := rapid.SampledFrom([]int{0, 1, 8, 15, 16, 17, 24, 32, 80}).Draw(t, l+"/ad")
			switch rapid.IntRange(0, 39).Draw(t, l+"/large") {
			case 0:
				m.N = rapid.SampledFrom([]int{8191, 8192, 16384, 65535, 65536, 65537, 70001}).Draw(t, l+"/big")
			case 1, 2:
				ad = rapid.SampledFrom([]int{255, 256, 257, 1000, 4096, 4097, 9000, 65537}).Draw(t, l+"/bigad")
			}
			m.AD = prng(m.Seed+3, ad)
			m.Kind = rapid.SampledFrom([]string{"flip", "trunc", "extend", "nonce", "ad", "adlen", "key", "none", "adnonce"}).Draw(t, l+"/kind")
			m.A = rapid.IntRange(0, 1<<16).Draw(t, l+"/a")
			m.B = rapid.IntRange(0, 7).Draw(t, l+"/b")
			c.Msgs = append(c.Msgs, m)
		}
		return c
	}, c26Exec)
}

func genNonce16(t *rapid.T, l string) []byte {
	if rapid.IntRange(0, 9).Draw(t, l+"/z") == 0 {
		return make([]byte, 16)
	}
	return prng(rapid.Uint64().Draw(t, l), 16)
}

func c26Exec(c c26Case, rec *Rec) error {
	key := prng(c.Key, 64)
	mine := append([]byte{}, key...)
	a := siv_aead.New(mine)
	// "Create a private copy so the caller can zero the one he owns"
	for i := range mine {
		mine[i] = 0
	}
	ref := newRefSIV(key)
	if a.NonceSize() != 16 || a.Overhead() != 16 {
		return fmt.Errorf("nonce size %d, overhead %d", a.NonceSize(), a.Overhead())
	}
	run := func(i int, m c26Msg) error {
		plain := prng(m.Seed, m.N)
		pin, nin, ain := append([]byte{}, plain...), append([]byte{}, m.Nonce...), append([]byte{}, m.AD...)
		prefix := prng(m.Seed+9, m.Dst)
		dst := make([]byte, m.Dst, m.Dst+m.Cap)
		copy(dst, prefix)
		where := fmt.Sprintf("message %d (%d bytes, ad %d, dst %d+%d)", i, m.N, len(m.AD), m.Dst, m.Cap)
		out := a.Seal(dst, nin, pin, ain)
		want := append(append([]byte{}, prefix...), ref.seal(m.Nonce, plain, m.AD)...)
		if !bytes.Equal(out, want) {
			return fmt.Errorf("%s: Seal: %s", where, diffBytes(out, want))
		}
		ct := append([]byte{}, out[m.Dst:]...)
		if !bytes.Equal(pin, plain) || !bytes.Equal(nin, m.Nonce) || !bytes.Equal(ain, m.AD) {
			return fmt.Errorf("%s: Seal modified its input", where)
		}
		dst = make([]byte, m.Dst, m.Dst+m.Cap)
		copy(dst, prefix)
		cin := append([]byte{}, ct...)
		back, err := a.Open(dst, nin, cin, ain)
		if err != nil || !bytes.Equal(back, append(append([]byte{}, prefix...), plain...)) {
			return fmt.Errorf("%s: Open: %v %s", where, err, diffBytes(back, append(append([]byte{}, prefix...), plain...)))
		}
		if !bytes.Equal(cin, ct) || !bytes.Equal(nin, m.Nonce) || !bytes.Equal(ain, m.AD) {
			return fmt.Errorf("%s: Open modified its input", where)
		}
		x := a
		switch m.Kind {
		case "none":
			return nil
		case "flip":
			cin[m.A%len(cin)] ^= 1 << m.B
		case "trunc":
			cin = cin[:m.A%len(cin)]
		case "extend":
			cin = append(cin, byte(m.A))
		case "nonce":
			nin[m.A%16] ^= 1 << m.B
		case "ad":
			if len(ain) == 0 {
				ain = []byte{byte(m.A)}
			} else {
				ain[m.A%len(ain)] ^= 1 << m.B
			}
		case "adlen":
			ain = append(ain, 0)
		case "adnonce":
			// associated data and nonce are separate strings
			if len(ain) != 16 || bytes.Equal(ain, nin) {
				ain = append(append([]byte{}, nin...), ain...)
			} else {
				ain, nin = nin, ain
			}
		case "key":
			k := append([]byte{}, key...)
			n := 64
			if m.N < 16 {
				n = 32 // the encryption half acts on few bytes or none, which may coincide
			}
			k[m.A%n] ^= 1 << m.B
			x = siv_aead.New(k)
		}
		got, err := x.Open(nil, nin, cin, ain)
		if err == nil {
			return fmt.Errorf("%s: opened after alteration %s", where, m.Kind)
		}
		if len(got) != 0 {
			return fmt.Errorf("%s: refused after alteration %s, but %d bytes came with the error", where, m.Kind, len(got))
		}
		dst = make([]byte, m.Dst, m.Dst+m.Cap+m.N)
		copy(dst, prefix)
		if got, err := x.Open(dst, nin, cin, ain); err == nil || len(got) > m.Dst || bytes.Contains(dst[m.Dst:cap(dst)], nonEmpty(plain)) {
			return fmt.Errorf("%s: refused after alteration %s, but data came with the error: %d bytes, %v", where, m.Kind, len(got), err)
		}
		rec.NonTrivial()
		rec.Label("refused: " + m.Kind)
		return nil
	}
	if !c.Conc {
		for i, m := range c.Msgs {
			if err := run(i, m); err != nil {
				return err
			}
		}
		return nil
	}
	errs := make([]error, 3*len(c.Msgs))
	var wg sync.WaitGroup
	for i := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("panic: %v", r)
				}
			}()
			errs[i] = run(i%len(c.Msgs), c.Msgs[i%len(c.Msgs)])
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return fmt.Errorf("used concurrently: %v", err)
		}
	}
	return nil
}

// nonEmpty makes short plaintexts unmatchable in a zeroed buffer.
func nonEmpty(b []byte) []byte {
	if len(b) < 8 {
		return []byte("\xff\xfe\xfd\xfc\xfb\xfa\xf9\xf8 no")
	}
	return b
}
