//go:build all || c13 || c14 || c15

package main

// C13 block encryption follows the format and is reversible; C14 every block
// is bound to key, position, file and exact bytes; C15 size and offset
// arithmetic.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sync"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"pgregory.net/rapid"
)

type encSpec struct {
	Seed uint64 `json:"seed"`
	HKDF bool   `json:"hkdf"`
	SIV  bool   `json:"siv"`
	IV96 bool   `json:"iv96,omitempty"` // GCM with 96-bit nonces (old config files)
	BS   int    `json:"bs"`
}

func genEncSpec(t *rapid.T) encSpec {
	s := encSpec{
		Seed: rapid.Uint64().Draw(t, "seed"), HKDF: rapid.Bool().Draw(t, "hkdf"), SIV: rapid.Bool().Draw(t, "siv"),
		BS: 4096,
	}
	if rapid.IntRange(0, 2).Draw(t, "bsk") == 0 {
		s.BS = rapid.SampledFrom([]int{16, 32, 512, 1024, 65536, 131072}).Draw(t, "bs")
	}
	if !s.SIV && rapid.IntRange(0, 5).Draw(t, "iv96") == 0 {
		s.IV96 = true
	}
	return s
}

func (s encSpec) master() []byte { return prng(s.Seed^0xabcdef, 32) }

func (s encSpec) ivLen() int {
	if s.IV96 {
		return 12
	}
	return 16
}

func (s encSpec) open() *contentenc.ContentEnc {
	be := cryptocore.BackendGoGCM
	if s.SIV {
		be = cryptocore.BackendAESSIV
	}
	key := s.master()
	cc := cryptocore.New(key, be, s.ivLen()*8, s.HKDF, false)
	for i := range key {
		key[i] = 0 // callers wipe their copy
	}
	return contentenc.New(cc, uint64(s.BS), false)
}

func (s encSpec) ref() refAEAD {
	m := s.master()
	if s.IV96 {
		if s.HKDF {
			m = refHKDF(m, "AES-GCM file content encryption", 32)
		}
		return newRefGCM(m, 12)
	}
	return refContentAEAD(m, s.HKDF, s.SIV)
}

func (s encSpec) over() int { return s.ivLen() + 16 }

// refDec decrypts one stored block.
func (s encSpec) refDec(a refAEAD, blk []byte, no uint64, id []byte) ([]byte, error) {
	n := s.ivLen()
	if len(blk) == 0 {
		return nil, nil
	}
	if len(blk) == s.BS+s.over() && allZero(blk) {
		return make([]byte, s.BS), nil
	}
	if len(blk) < n+16 || allZero(blk[:n]) {
		return nil, errRefCorrupt
	}
	return a.open(blk[:n], blk[n:], refAD(no, id))
}

func allZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

func genBlockNo(t *rapid.T, l string) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, l+"/kind") {
	case 0:
		return rapid.Uint64Range(0, 40).Draw(t, l)
	case 1:
		return rapid.SampledFrom([]uint64{0, 1, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<33 + 5, 1 << 40, 1<<56 + 1, 1<<63 - 1, 1 << 63, ^uint64(0) - 100}).Draw(t, l)
	default:
		return rapid.Uint64().Draw(t, l) >> 1
	}
}

func genFileID(t *rapid.T, l string) []byte {
	if rapid.IntRange(0, 3).Draw(t, l+"/nil") == 0 {
		return nil
	}
	return prng(rapid.Uint64().Draw(t, l), 16)
}

// ---------------------------------------------------------------- C13

type c13Job struct {
	N     int    `json:"n"`    // full blocks
	Tail  int    `json:"tail"` // bytes of a partial last block (0 = none)
	Seed  uint64 `json:"seed"`
	Zero  bool   `json:"zero,omitempty"` // all-zero plaintext
	First uint64 `json:"first"`
	ID    []byte `json:"id"`
	Nonce []byte `json:"nonce,omitempty"` // SIV: caller's nonce for the first block
}

type c13Case struct {
	S      encSpec  `json:"s"`
	Jobs   []c13Job `json:"jobs"`
	Conc   bool     `json:"conc,omitempty"`
	Return bool     `json:"ret,omitempty"` // return buffers to the pools, as callers do
}

func init() {
	reg(Prop{
		ID: "C13", Quick: 6000, Thorough: 150000,
		Rule:  "a case is a key, a cipher mode (GCM, SIV, 96-bit GCM; HKDF or not), a block size from 16 to 131072 and 1-5 jobs of up to 80 blocks with a partial last block (some of 500-10,000 blocks), any block number up to 2^64, any file ID or none, run one after another or at once, with buffers returned to the pools or not; non-trivial = at least two blocks; oracle: the reference decryptor recovers every block from the output, the repository decrypts the reference's and its own output, lengths add up, inputs are untouched",
		Setup: "non-empty blocks; block numbers do not wrap within one job",
		Fixed: func(tier Tier, seed uint64) []any {
			var out []any
			for i, n := range []int{129, 255, 256, 257, 500, 1000, 2000, 4097, 10000} {
				for _, s := range []encSpec{{BS: 16}, {BS: 16, SIV: true, HKDF: true}, {BS: 4096, HKDF: true}, {BS: 512, SIV: true}, {BS: 4096, IV96: true}} {
					s.Seed = seed*31 + uint64(i)
					c := c13Case{S: s, Return: i%2 == 0}
					for j := 0; j < 2; j++ {
						c.Jobs = append(c.Jobs, c13Job{N: n, Tail: j * 7, Seed: s.Seed + uint64(j), First: []uint64{0, 1<<32 - 300, 1<<40 + 5}[(i+j)%3], ID: prng(s.Seed+9, 16)})
					}
					out = append(out, c)
				}
			}
			return out
		},
	}, func(t *rapid.T, tier Tier) c13Case {
		c := c13Case{S: genEncSpec(t), Conc: rapid.IntRange(0, 3).Draw(t, "conc") == 0, Return: rapid.Bool().Draw(t, "ret")}
		maxBytes := 400000
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "jobs"); i < n; i++ {
			l := fmt.Sprint("j", i)
			j := c13Job{Seed: rapid.Uint64().Draw(t, l+"/seed"), Zero: rapid.IntRange(0, 9).Draw(t, l+"/zero") == 0, First: genBlockNo(t, l+"/no"), ID: genFileID(t, l+"/id")}
			switch rapid.IntRange(0, 4).Draw(t, l+"/nk") {
			case 0:
				j.N = rapid.SampledFrom([]int{31, 32, 33, 34, 35, 63, 64, 65, 80}).Draw(t, l+"/n")
			default:
				j.N = rapid.IntRange(0, 6).Draw(t, l+"/n")
			}
			for j.N > 1 && j.N*c.S.BS > maxBytes {
				j.N /= 2
			}
			if rapid.Bool().Draw(t, l+"/hastail") || j.N == 0 {
				j.Tail = rapid.OneOf(rapid.IntRange(1, c.S.BS-1), rapid.SampledFrom([]int{1, 15, c.S.BS - 1})).Draw(t, l+"/tail")
				if j.Tail >= c.S.BS {
					j.Tail = c.S.BS - 1
				}
			}
			if c.S.SIV && rapid.Bool().Draw(t, l+"/hasnonce") {
				j.Nonce = prng(rapid.Uint64().Draw(t, l+"/nonce"), 16)
			}
			c.Jobs = append(c.Jobs, j)
		}
		return c
	}, c13Exec)
}

func (j c13Job) plain(bs int) []byte {
	n := j.N*bs + j.Tail
	if j.Zero {
		return make([]byte, n)
	}
	return prng(j.Seed, n)
}

func split(b []byte, n int) [][]byte {
	var out [][]byte
	for len(b) > n {
		out = append(out, b[:n:n])
		b = b[n:]
	}
	if len(b) > 0 {
		out = append(out, b[:len(b):len(b)])
	}
	return out
}

func c13Exec(c c13Case, rec *Rec) error {
	e := c.S.open()
	ref := c.S.ref()
	cbs := c.S.BS + c.S.over()
	if int(e.PlainBS()) != c.S.BS || int(e.CipherBS()) != cbs || int(e.BlockOverhead()) != c.S.over() {
		return fmt.Errorf("block sizes: plain %d cipher %d overhead %d, want %d %d %d", e.PlainBS(), e.CipherBS(), e.BlockOverhead(), c.S.BS, cbs, c.S.over())
	}
	run := func(ji int, j c13Job) error {
		where := fmt.Sprintf("job %d (%+v, %d blocks of %d, tail %d, first block %d, id %x)", ji, c.S, j.N, c.S.BS, j.Tail, j.First, j.ID)
		plain := j.plain(c.S.BS)
		work := append([]byte{}, plain...)
		id := append([]byte(nil), j.ID...)
		if j.ID == nil {
			id = nil
		}
		blocks := split(work, c.S.BS)
		out := e.EncryptBlocks(blocks, j.First, id)
		if !bytes.Equal(work, plain) || !bytes.Equal(id, j.ID) {
			return fmt.Errorf("%s: EncryptBlocks modified its input", where)
		}
		if want := len(plain) + len(blocks)*c.S.over(); len(out) != want {
			return fmt.Errorf("%s: ciphertext has %d bytes, want %d", where, len(out), want)
		}
		stored := append([]byte{}, out...)
		if c.Return {
			e.CReqPool.Put(padCap(out, e))
		}
		nonces := map[string]bool{}
		for k, blk := range split(stored, cbs) {
			p, err := c.S.refDec(ref, blk, j.First+uint64(k), id)
			if err != nil || !bytes.Equal(p, blocks[k]) {
				return fmt.Errorf("%s: block %d of the output is not what the format defines: %v %s", where, k, err, diffBytes(p, blocks[k]))
			}
			n := string(blk[:c.S.ivLen()])
			if nonces[n] {
				return fmt.Errorf("%s: nonce %x used for two blocks", where, n)
			}
			nonces[n] = true
			q, err := e.DecryptBlock(append([]byte{}, blk...), j.First+uint64(k), id)
			if err != nil || !bytes.Equal(q, blocks[k]) {
				return fmt.Errorf("%s: DecryptBlock of block %d: %v %s", where, k, err, diffBytes(q, blocks[k]))
			}
		}
		work2 := append([]byte{}, stored...)
		d, err := e.DecryptBlocks(work2, j.First, id)
		if err != nil || !bytes.Equal(d, plain) {
			return fmt.Errorf("%s: DecryptBlocks: %v %s", where, err, diffBytes(d, plain))
		}
		if !bytes.Equal(work2, stored) {
			return fmt.Errorf("%s: DecryptBlocks modified its input", where)
		}
		if c.Return && cap(d) == contentenc.MAX_KERNEL_WRITE+c.S.BS {
			e.PReqPool.Put(d)
		}
		// what the reference wrote, the repository reads
		var rc []byte
		for k, b := range blocks {
			nonce := prng(j.Seed^uint64(k+1)*77, c.S.ivLen())
			rc = append(rc, nonce...)
			rc = append(rc, ref.seal(nonce, b, refAD(j.First+uint64(k), id))...)
		}
		d, err = e.DecryptBlocks(rc, j.First, id)
		if err != nil || !bytes.Equal(d, plain) {
			return fmt.Errorf("%s: blocks written by the reference: %v %s", where, err, diffBytes(d, plain))
		}
		one := e.EncryptBlock(blocks[0], j.First, id)
		if p, err := c.S.refDec(ref, one, j.First, id); err != nil || !bytes.Equal(p, blocks[0]) {
			return fmt.Errorf("%s: EncryptBlock output is not what the format defines: %v", where, err)
		}
		if nonces[string(one[:c.S.ivLen()])] {
			return fmt.Errorf("%s: EncryptBlock reused a nonce", where)
		}
		if j.Nonce != nil {
			got := e.EncryptBlockNonce(blocks[0], j.First, id, append([]byte{}, j.Nonce...))
			want := append(append([]byte{}, j.Nonce...), ref.seal(j.Nonce, blocks[0], refAD(j.First, id))...)
			if !bytes.Equal(got, want) {
				return fmt.Errorf("%s: EncryptBlockNonce: %s", where, diffBytes(got, want))
			}
			rec.Label("chosen nonce")
		}
		if !c.S.SIV {
			if !panics(func() { e.EncryptBlockNonce(blocks[0], j.First, id, make([]byte, c.S.ivLen())) }) {
				return fmt.Errorf("%s: a chosen nonce was accepted outside SIV mode", where)
			}
		}
		// the header belongs to the format too
		h := contentenc.RandomHeader()
		hb := h.Pack()
		if len(hb) != 18 || binary.BigEndian.Uint16(hb) != 2 || allZero(hb[2:]) {
			return fmt.Errorf("file header %x", hb)
		}
		ph, err := contentenc.ParseHeader(append([]byte{}, hb...))
		if err != nil || ph.Version != 2 || !bytes.Equal(ph.ID, hb[2:]) || !bytes.Equal(h.ID, hb[2:]) {
			return fmt.Errorf("header %x parses as %+v, %v", hb, ph, err)
		}
		if len(blocks) > 1 {
			rec.NonTrivial()
		}
		if len(blocks) >= 32 {
			rec.Label("parallel encryption")
		}
		return nil
	}
	if !c.Conc {
		for i, j := range c.Jobs {
			if err := run(i, j); err != nil {
				return err
			}
		}
		return nil
	}
	rec.Label("concurrent")
	errs := make([]error, 4*len(c.Jobs))
	var wg sync.WaitGroup
	for i := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("panic: %v", r)
				}
			}()
			errs[i] = run(i%len(c.Jobs), c.Jobs[i%len(c.Jobs)])
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return fmt.Errorf("used concurrently: %v", err)
		}
	}
	return nil
}

// padCap hands a buffer back only if it really came from the pool.
func padCap(b []byte, e *contentenc.ContentEnc) []byte {
	want := int(contentenc.MAX_KERNEL_WRITE/e.PlainBS()*e.CipherBS() + e.CipherBS())
	if cap(b) != want {
		return make([]byte, want)
	}
	return b
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

// ---------------------------------------------------------------- C14

type c14Mut struct {
	Kind string `json:"kind"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	U    uint64 `json:"u,omitempty"`
}

type c14Case struct {
	S    encSpec  `json:"s"`
	J    c13Job   `json:"j"`
	Muts []c14Mut `json:"muts"`
}

var c14Kinds = []string{"flip", "flip", "flip", "byte", "trunc", "extend", "blockno", "blockno-bit", "fileid", "fileid-nil", "key", "key-bit", "swap", "drop", "dup", "zero-nonce", "zero-tag", "zero-data", "zero-block", "zero-all-but-one", "hole-short", "hole-long", "arbitrary", "other-mode"}

func init() {
	reg(Prop{
		ID: "C14", Quick: 20000, Thorough: 500000,
		Rule:  "a case is an encrypted run of blocks (as in C13) and up to 12 alterations of the ciphertext or of what it is decrypted with: bits, bytes, truncation, extension, block number, file ID, key, cipher mode, exchanged, dropped and duplicated blocks, zeroed parts and whole blocks, zeros of other lengths, arbitrary bytes; non-trivial = at least one alteration had to be refused; oracle: the reference decryptor; an error returns no data of the offending block or a later one",
		Setup: "no input block longer than the ciphertext block size",
	}, func(t *rapid.T, tier Tier) c14Case {
		c := c14Case{S: genEncSpec(t)}
		if c.S.BS > 4096 {
			c.S.BS = 4096
		}
		c.J = c13Job{Seed: rapid.Uint64().Draw(t, "seed"), Zero: rapid.IntRange(0, 5).Draw(t, "zero") == 0, First: genBlockNo(t, "no"), ID: genFileID(t, "id"), N: rapid.IntRange(0, 4).Draw(t, "n")}
		if rapid.Bool().Draw(t, "hastail") || c.J.N == 0 {
			c.J.Tail = rapid.IntRange(1, c.S.BS-1).Draw(t, "tail")
		}
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "nm"); i < n; i++ {
			l := fmt.Sprint("m", i)
			c.Muts = append(c.Muts, c14Mut{Kind: rapid.SampledFrom(c14Kinds).Draw(t, l), A: rapid.IntRange(0, 1<<20).Draw(t, l+"/a"), B: rapid.IntRange(0, 1<<20).Draw(t, l+"/b"), U: rapid.Uint64().Draw(t, l+"/u")})
		}
		return c
	}, c14Exec)
}

func c14Exec(c c14Case, rec *Rec) error {
	e := c.S.open()
	ref := c.S.ref()
	cbs := c.S.BS + c.S.over()
	plain := c.J.plain(c.S.BS)
	blocks := split(plain, c.S.BS)
	var stored []byte
	for k, b := range blocks {
		nonce := prng(c.J.Seed^uint64(k+1)*977, c.S.ivLen())
		stored = append(stored, nonce...)
		stored = append(stored, ref.seal(nonce, b, refAD(c.J.First+uint64(k), c.J.ID))...)
	}
	for mi, m := range c.Muts {
		ct := append([]byte{}, stored...)
		first, id, dec, rdec := c.J.First, append([]byte(nil), c.J.ID...), e, ref
		if c.J.ID == nil {
			id = nil
		}
		spec := c.S
		cb := split(ct, cbs)
		bi := m.A % len(cb)
		switch m.Kind {
		case "flip":
			i := m.A % len(ct)
			ct[i] ^= 1 << (m.B % 8)
		case "byte":
			ct[m.A%len(ct)] = byte(m.B)
		case "trunc":
			ct = ct[:len(ct)-1-m.A%len(ct)]
		case "extend":
			ct = append(ct, prng(m.U, 1+m.A%40)...)
		case "blockno":
			first = m.U
			if m.B%2 == 0 {
				first = c.J.First + 1 + uint64(m.A%4)
			}
		case "blockno-bit":
			first = c.J.First ^ 1<<(m.A%64)
		case "fileid":
			if id == nil {
				id = prng(m.U, 16)
			} else {
				id[m.A%16] ^= 1 << (m.B % 8)
			}
		case "fileid-nil":
			id = nil
		case "key":
			spec.Seed = m.U
		case "key-bit":
			k := c.S.master()
			k[m.A%32] ^= 1 << (m.B % 8)
			be := cryptocore.BackendGoGCM
			if c.S.SIV {
				be = cryptocore.BackendAESSIV
			}
			dec = contentenc.New(cryptocore.New(k, be, c.S.ivLen()*8, c.S.HKDF, false), uint64(c.S.BS), false)
			rdec = nil
		case "other-mode":
			if c.S.IV96 {
				spec.HKDF = !spec.HKDF
			} else if m.A%2 == 0 {
				spec.SIV = !spec.SIV
			} else {
				spec.HKDF = !spec.HKDF
			}
		case "swap":
			bj := m.B % len(cb)
			x := append([][]byte{}, cb...)
			x[bi], x[bj] = x[bj], x[bi]
			ct = bytes.Join(x, nil)
		case "drop":
			x := append(append([][]byte{}, cb[:bi]...), cb[bi+1:]...)
			ct = bytes.Join(x, nil)
		case "dup":
			x := append(append(append([][]byte{}, cb[:bi]...), cb[bi]), cb[bi:]...)
			ct = bytes.Join(x, nil)
		case "zero-nonce":
			zero(cb[bi][:min(c.S.ivLen(), len(cb[bi]))])
		case "zero-tag":
			if c.S.SIV {
				zero(cb[bi][16:32])
			} else {
				zero(cb[bi][len(cb[bi])-16:])
			}
		case "zero-data":
			zero(cb[bi][c.S.ivLen():])
		case "zero-block":
			zero(cb[bi])
		case "zero-all-but-one":
			zero(cb[bi])
			cb[bi][m.B%len(cb[bi])] = byte(1 + m.U%255)
		case "hole-short":
			ct = make([]byte, m.B%(cbs+1))
		case "hole-long":
			ct = make([]byte, cbs+m.B%(2*cbs))
		case "arbitrary":
			ct = prng(m.U, m.B%(2*cbs))
		}
		if spec != c.S {
			dec, rdec = spec.open(), spec.ref()
		}
		where := fmt.Sprintf("alteration %d %+v of %d blocks of %d (%+v, first block %d, id %x)", mi, m, len(blocks), c.S.BS, c.S, c.J.First, c.J.ID)
		// what the format defines for these bytes
		var want []byte
		var werr error
		good := 0
		for k, blk := range split(ct, cbs) {
			var p []byte
			if rdec == nil {
				p, werr = nil, errRefCorrupt
				if len(blk) == cbs && allZero(blk) {
					p, werr = make([]byte, c.S.BS), nil
				}
			} else {
				p, werr = spec.refDec(rdec, blk, first+uint64(k), id)
			}
			q, qerr := dec.DecryptBlock(append([]byte{}, blk...), first+uint64(k), id)
			if werr == nil && qerr != nil {
				return fmt.Errorf("%s: block %d is authentic but was refused: %v", where, k, qerr)
			}
			if werr != nil && qerr == nil {
				return fmt.Errorf("%s: block %d is not authentic but was accepted (%d bytes)", where, k, len(q))
			}
			if werr != nil && len(q) != 0 {
				return fmt.Errorf("%s: block %d was refused, but %d bytes of data came with the error", where, k, len(q))
			}
			if werr == nil && !bytes.Equal(p, q) {
				return fmt.Errorf("%s: block %d decrypts to something else: %s", where, k, diffBytes(q, p))
			}
			if werr != nil {
				break
			}
			want = append(want, p...)
			good++
		}
		got, gerr := dec.DecryptBlocks(append([]byte{}, ct...), first, id)
		if (gerr == nil) != (werr == nil) {
			return fmt.Errorf("%s: DecryptBlocks error %v, by the format %v", where, gerr, werr)
		}
		if gerr == nil && !bytes.Equal(got, want) {
			return fmt.Errorf("%s: DecryptBlocks: %s", where, diffBytes(got, want))
		}
		if gerr != nil {
			if !bytes.HasPrefix(want, got) {
				return fmt.Errorf("%s: DecryptBlocks returned an error and %d bytes that are not the authentic blocks before it", where, len(got))
			}
			rec.NonTrivial()
			rec.Label("refused")
		} else {
			rec.Label("accepted")
		}
	}
	// file headers: exactly the current version and a non-zero ID are accepted
	for mi, m := range c.Muts {
		h := append([]byte{0, 2}, prng(m.U, 16)...)
		switch m.A % 7 {
		case 0:
			h[0] = byte(m.B)
		case 1:
			h[1] = byte(m.B)
		case 2:
			h = h[:m.B%18]
		case 3:
			h = append(h, prng(m.U, 1+m.B%20)...)
		case 4:
			zero(h[2:])
		case 5:
			zero(h[2:])
			h[2+m.B%16] = byte(1 + m.U%255)
		}
		ok := len(h) == 18 && h[0] == 0 && h[1] == 2 && !allZero(h[2:])
		ph, err := contentenc.ParseHeader(append([]byte{}, h...))
		if ok != (err == nil) {
			return fmt.Errorf("header %d %x: valid=%v but ParseHeader says %v", mi, h, ok, err)
		}
		if ok && (ph.Version != 2 || !bytes.Equal(ph.ID, h[2:])) {
			return fmt.Errorf("header %x parses as %+v", h, ph)
		}
	}
	// and the original still reads
	got, err := e.DecryptBlocks(stored, c.J.First, c.J.ID)
	if err != nil || !bytes.Equal(got, plain) {
		return fmt.Errorf("the unaltered blocks no longer decrypt: %v %s", err, diffBytes(got, plain))
	}
	return nil
}

func zero(b []byte) {
	for i := range b {
		b[i] = 0
	}
}

// ---------------------------------------------------------------- C15

type c15Case struct {
	S     encSpec  `json:"s"`
	Sizes []uint64 `json:"sizes"`
	Off   uint64   `json:"off"`
	Len   uint64   `json:"len"`
	COff  uint64   `json:"coff"`
	CLen  uint64   `json:"clen"`
	Old   int      `json:"old"`
	New   int      `json:"new"`
	At    int      `json:"at"`
	Have  int      `json:"have"` // bytes available in a block to crop
}

func init() {
	reg(Prop{
		ID: "C15", Quick: 200000, Thorough: 2000000,
		Rule:  "a case is a block size (16 to 131072) and cipher overhead, sizes up to 2^62 (weighted to block boundaries), a plaintext and a ciphertext range, and a merge and a crop of blocks; non-trivial = the range spans at least two blocks; oracle: big-integer and byte-by-byte definitions of the layout",
		Setup: "no arithmetic beyond 2^63; ciphertext ranges start after the header",
	}, func(t *rapid.T, tier Tier) c15Case {
		c := c15Case{S: genEncSpec(t)}
		bs := uint64(c.S.BS)
		cbs := bs + uint64(c.S.over())
		edge := func(l string, unit uint64) uint64 {
			switch rapid.IntRange(0, 4).Draw(t, l+"/k") {
			case 0:
				return rapid.Uint64Range(0, 3*unit+40).Draw(t, l)
			case 1:
				return rapid.Uint64Range(0, 1<<62).Draw(t, l)
			case 2:
				return rapid.Uint64Range(0, 1<<33).Draw(t, l)
			default:
				n := rapid.Uint64Range(0, 40).Draw(t, l+"/n")
				if rapid.IntRange(0, 3).Draw(t, l+"/far") == 0 {
					n = rapid.Uint64Range(0, (1<<61)/unit).Draw(t, l+"/nn")
				}
				base := n*unit + rapid.SampledFrom([]uint64{0, 18}).Draw(t, l+"/h")
				d := rapid.Uint64Range(0, 40).Draw(t, l+"/d")
				if rapid.Bool().Draw(t, l+"/minus") && base >= d {
					return base - d
				}
				return base + d
			}
		}
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "ns"); i < n; i++ {
			c.Sizes = append(c.Sizes, edge(fmt.Sprint("p", i), bs), edge(fmt.Sprint("c", i), cbs))
		}
		c.Off = edge("off", bs)
		c.Len = rapid.OneOf(rapid.Uint64Range(0, 5*bs), rapid.Uint64Range(0, 2)).Draw(t, "len")
		c.COff = 18 + edge("coff", cbs)
		c.CLen = rapid.OneOf(rapid.Uint64Range(0, 5*cbs), rapid.Uint64Range(0, 2)).Draw(t, "clen")
		c.Old = rapid.IntRange(0, c.S.BS).Draw(t, "old")
		c.At = rapid.IntRange(0, c.S.BS).Draw(t, "at")
		c.New = rapid.IntRange(0, c.S.BS-c.At).Draw(t, "new")
		if rapid.Bool().Draw(t, "at0") {
			c.At = 0
		}
		c.Have = rapid.IntRange(0, c.S.BS).Draw(t, "have")
		return c
	}, c15Exec)
}

func c15Exec(c c15Case, rec *Rec) error {
	e := c.S.open()
	bs := uint64(c.S.BS)
	ov := uint64(c.S.over())
	cbs := bs + ov
	if e.PlainBS() != bs || e.CipherBS() != cbs || e.BlockOverhead() != ov {
		return fmt.Errorf("sizes %d %d %d, want %d %d %d", e.PlainBS(), e.CipherBS(), e.BlockOverhead(), bs, cbs, ov)
	}
	for _, n := range c.Sizes {
		// plaintext -> ciphertext, by definition
		want := new(big.Int)
		if n > 0 {
			want.SetUint64((n + bs - 1) / bs)
			want.Mul(want, new(big.Int).SetUint64(ov))
			want.Add(want, new(big.Int).SetUint64(n))
			want.Add(want, big.NewInt(18))
		}
		got := e.PlainSizeToCipherSize(n)
		if new(big.Int).SetUint64(got).Cmp(want) != 0 {
			return fmt.Errorf("%+v: PlainSizeToCipherSize(%d) = %d, want %v", c.S, n, got, want)
		}
		if back := e.CipherSizeToPlainSize(got); back != n {
			return fmt.Errorf("%+v: CipherSizeToPlainSize(PlainSizeToCipherSize(%d)=%d) = %d", c.S, n, got, back)
		}
		// ciphertext -> plaintext, for any size a remote may report
		p := e.CipherSizeToPlainSize(n)
		wantP := uint64(0)
		if n > 18 {
			full := (n - 18) / cbs
			rest := (n - 18) % cbs
			wantP = full * bs
			valid := true
			if rest > ov {
				wantP += rest - ov
			} else if rest > 0 {
				valid = false // a block without payload cannot be part of a file
			}
			if valid && p != wantP {
				return fmt.Errorf("%+v: CipherSizeToPlainSize(%d) = %d, want %d", c.S, n, p, wantP)
			}
			if !valid && p > full*bs {
				return fmt.Errorf("%+v: CipherSizeToPlainSize(%d) = %d, more than the ciphertext can hold", c.S, n, p)
			}
		} else if p != 0 {
			return fmt.Errorf("%+v: CipherSizeToPlainSize(%d) = %d, want 0", c.S, n, p)
		}
		if n > 0 && n < 1<<62 {
			no := n / bs
			if e.PlainOffToBlockNo(n) != no {
				return fmt.Errorf("PlainOffToBlockNo(%d) = %d, want %d", n, e.PlainOffToBlockNo(n), no)
			}
			if no < 1<<40 && (e.BlockNoToPlainOff(no) != no*bs || e.BlockNoToCipherOff(no) != 18+no*cbs) {
				return fmt.Errorf("offsets of block %d: %d %d, want %d %d", no, e.BlockNoToPlainOff(no), e.BlockNoToCipherOff(no), no*bs, 18+no*cbs)
			}
		}
		if n >= 18 && e.CipherOffToBlockNo(n) != (n-18)/cbs {
			return fmt.Errorf("CipherOffToBlockNo(%d) = %d, want %d", n, e.CipherOffToBlockNo(n), (n-18)/cbs)
		}
	}
	// plaintext ranges
	bl := e.ExplodePlainRange(c.Off, c.Len)
	if err := checkExplode("plain", c.Off, c.Len, bs, 0, bl); err != nil {
		return fmt.Errorf("%+v: %v", c.S, err)
	}
	if len(bl) > 1 {
		rec.NonTrivial()
	}
	for i := range bl {
		b := &bl[i]
		if b.BlockPlainOff() != b.BlockNo*bs || b.BlockCipherOff() != 18+b.BlockNo*cbs {
			return fmt.Errorf("block %d: offsets %d %d", b.BlockNo, b.BlockPlainOff(), b.BlockCipherOff())
		}
		if b.IsPartial() != (b.Skip != 0 || b.Length != bs) {
			return fmt.Errorf("block %+v: IsPartial = %v", *b, b.IsPartial())
		}
		// crop a block of which `have` bytes exist
		d := prng(uint64(i)+c.Off, max(c.Have, int(b.Skip)))
		var want []byte
		for k := b.Skip; k < b.Skip+b.Length && k < uint64(len(d)); k++ {
			want = append(want, d[k])
		}
		if got := b.CropBlock(append([]byte{}, d...)); !bytes.Equal(got, want) {
			return fmt.Errorf("CropBlock of %d bytes to skip %d length %d: %s", len(d), b.Skip, b.Length, diffBytes(got, want))
		}
	}
	if len(bl) > 0 {
		f, l := bl[0].BlockNo, bl[len(bl)-1].BlockNo
		o, n := bl[0].JointCiphertextRange(bl)
		if o != 18+f*cbs || n != (l-f+1)*cbs {
			return fmt.Errorf("JointCiphertextRange of blocks %d..%d: %d+%d, want %d+%d", f, l, o, n, 18+f*cbs, (l-f+1)*cbs)
		}
		o, n = contentenc.JointPlaintextRange(bl)
		if o != f*bs || n != (l-f+1)*bs {
			return fmt.Errorf("JointPlaintextRange of blocks %d..%d: %d+%d, want %d+%d", f, l, o, n, f*bs, (l-f+1)*bs)
		}
	}
	// ciphertext ranges
	cl := e.ExplodeCipherRange(c.COff, c.CLen)
	if err := checkExplode("cipher", c.COff, c.CLen, cbs, 18, cl); err != nil {
		return fmt.Errorf("%+v: %v", c.S, err)
	}
	for i := range cl {
		if b := &cl[i]; b.BlockPlainOff() != b.BlockNo*bs || b.BlockCipherOff() != 18+b.BlockNo*cbs {
			return fmt.Errorf("block %d of a ciphertext range: offsets %d %d", b.BlockNo, b.BlockPlainOff(), b.BlockCipherOff())
		}
	}
	if len(cl) > 0 {
		f, l := cl[0].BlockNo, cl[len(cl)-1].BlockNo
		o, n := cl[0].JointCiphertextRange(cl)
		if o != 18+f*cbs || n != (l-f+1)*cbs {
			return fmt.Errorf("JointCiphertextRange of blocks %d..%d of a ciphertext range: %d+%d, want %d+%d", f, l, o, n, 18+f*cbs, (l-f+1)*cbs)
		}
		o, n = contentenc.JointPlaintextRange(cl)
		if o != f*bs || n != (l-f+1)*bs {
			return fmt.Errorf("JointPlaintextRange of blocks %d..%d of a ciphertext range: %d+%d, want %d+%d", f, l, o, n, f*bs, (l-f+1)*bs)
		}
	}
	// merging
	old, nw := prng(c.Off, c.Old), prng(c.Len+9, c.New)
	if c.At+c.New <= c.S.BS {
		wl := max(c.Old, c.At+c.New)
		want := make([]byte, wl)
		for i := range want {
			switch {
			case i >= c.At && i < c.At+c.New:
				want[i] = nw[i-c.At]
			case i < c.Old:
				want[i] = old[i]
			}
		}
		got := e.MergeBlocks(append([]byte{}, old...), append([]byte{}, nw...), c.At)
		if !bytes.Equal(got, want) {
			return fmt.Errorf("MergeBlocks of %d bytes with %d bytes at %d: %s", c.Old, c.New, c.At, diffBytes(got, want))
		}
	}
	if contentenc.MinUint64(c.Off, c.Len) != min(c.Off, c.Len) {
		return fmt.Errorf("MinUint64(%d,%d) = %d", c.Off, c.Len, contentenc.MinUint64(c.Off, c.Len))
	}
	return nil
}

// checkExplode: the parts are exactly the range, in order, one per block.
func checkExplode(what string, off, n, bs, head uint64, bl []contentenc.IntraBlock) error {
	pos := off
	var sum uint64
	for i, b := range bl {
		if b.Length == 0 || b.Skip+b.Length > bs {
			return fmt.Errorf("%s range %d+%d: part %d has skip %d length %d", what, off, n, i, b.Skip, b.Length)
		}
		if head+b.BlockNo*bs+b.Skip != pos {
			return fmt.Errorf("%s range %d+%d: part %d starts at %d, want %d", what, off, n, i, head+b.BlockNo*bs+b.Skip, pos)
		}
		if i > 0 && b.BlockNo != bl[i-1].BlockNo+1 {
			return fmt.Errorf("%s range %d+%d: part %d is block %d after block %d", what, off, n, i, b.BlockNo, bl[i-1].BlockNo)
		}
		pos += b.Length
		sum += b.Length
	}
	if sum != n {
		return fmt.Errorf("%s range %d+%d: the parts cover %d bytes", what, off, n, sum)
	}
	return nil
}
