package main

// An independent implementation of the gocryptfs v2 on-disk format, used to
// build encrypted volumes and as the oracle for decryption. It shares no code
// with /repo: only the Go standard library, x/crypto (scrypt) and the EME
// permutation of the third-party module.

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/subtle"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"math/rand/v2"

	"github.com/rfjakob/eme"
	"golang.org/x/crypto/scrypt"
)

const (
	refPlainBS  = 4096
	refOverhead = 32
	refCipherBS = refPlainBS + refOverhead
	refHeader   = 18
)

// VolFlags are the on-disk variants of a volume.
type VolFlags struct {
	HKDF      bool
	Raw64     bool
	AESSIV    bool
	LongNames bool
}

// RefVol holds the keys of a reference volume.
type RefVol struct {
	F        VolFlags
	Master   []byte
	Password []byte
	b64      *base64.Encoding
	em       *eme.EMECipher
	aead     refAEAD
}

type refAEAD interface {
	seal(nonce, plain, ad []byte) []byte
	open(nonce, ct, ad []byte) ([]byte, error)
}

func refHKDF(key []byte, info string, n int) []byte {
	// RFC 5869 with SHA-256 and no salt
	ext := hmac.New(sha256.New, make([]byte, sha256.Size))
	ext.Write(key)
	prk := ext.Sum(nil)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		m := hmac.New(sha256.New, prk)
		m.Write(t)
		m.Write([]byte(info))
		m.Write([]byte{i})
		t = m.Sum(nil)
		out = append(out, t...)
	}
	return out[:n]
}

type refGCM struct{ a cipher.AEAD }

func newRefGCM(key []byte, ivLen int) refGCM {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	g, err := cipher.NewGCMWithNonceSize(b, ivLen)
	if err != nil {
		panic(err)
	}
	return refGCM{g}
}

func (g refGCM) seal(nonce, plain, ad []byte) []byte { return g.a.Seal(nil, nonce, plain, ad) }
func (g refGCM) open(nonce, ct, ad []byte) ([]byte, error) {
	return g.a.Open(nil, nonce, ct, ad)
}

// refSIV is AES-SIV (RFC 5297) with the nonce as last associated-data string.
type refSIV struct{ mac, ctr cipher.Block }

func newRefSIV(key []byte) refSIV {
	m, err := aes.NewCipher(key[:len(key)/2])
	if err != nil {
		panic(err)
	}
	c, err := aes.NewCipher(key[len(key)/2:])
	if err != nil {
		panic(err)
	}
	return refSIV{m, c}
}

func dbl(b []byte) []byte {
	out := make([]byte, 16)
	var carry byte
	for i := 15; i >= 0; i-- {
		out[i] = b[i]<<1 | carry
		carry = b[i] >> 7
	}
	if carry == 1 {
		out[15] ^= 0x87
	}
	return out
}

func xor16(dst, a, b []byte) {
	for i := 0; i < 16; i++ {
		dst[i] = a[i] ^ b[i]
	}
}

func refCMAC(c cipher.Block, msg []byte) []byte {
	l := make([]byte, 16)
	c.Encrypt(l, l)
	k1 := dbl(l)
	k2 := dbl(k1)
	n := (len(msg) + 15) / 16
	last := make([]byte, 16)
	if n == 0 {
		n = 1
		last[0] = 0x80
		xor16(last, last, k2)
	} else if len(msg)%16 == 0 {
		xor16(last, msg[(n-1)*16:], k1)
	} else {
		copy(last, msg[(n-1)*16:])
		last[len(msg)-(n-1)*16] = 0x80
		xor16(last, last, k2)
	}
	x := make([]byte, 16)
	for i := 0; i < n-1; i++ {
		xor16(x, x, msg[i*16:(i+1)*16])
		c.Encrypt(x, x)
	}
	xor16(x, x, last)
	c.Encrypt(x, x)
	return x
}

func (s refSIV) s2v(strs [][]byte) []byte {
	d := refCMAC(s.mac, make([]byte, 16))
	for _, x := range strs[:len(strs)-1] {
		d = dbl(d)
		xor16(d, d, refCMAC(s.mac, x))
	}
	last := strs[len(strs)-1]
	var t []byte
	if len(last) >= 16 {
		t = append([]byte{}, last...)
		off := len(t) - 16
		xor16(t[off:], t[off:], d)
	} else {
		t = make([]byte, 16)
		copy(t, last)
		t[len(last)] = 0x80
		dd := dbl(d)
		xor16(t, t, dd)
	}
	return refCMAC(s.mac, t)
}

func (s refSIV) crypt(v, in []byte) []byte {
	q := append([]byte{}, v...)
	q[8] &= 0x7f
	q[12] &= 0x7f
	out := make([]byte, len(in))
	cipher.NewCTR(s.ctr, q).XORKeyStream(out, in)
	return out
}

func (s refSIV) seal(nonce, plain, ad []byte) []byte {
	v := s.s2v([][]byte{ad, nonce, plain})
	return append(append([]byte{}, v...), s.crypt(v, plain)...)
}

func (s refSIV) open(nonce, ct, ad []byte) ([]byte, error) {
	if len(ct) < 16 {
		return nil, errors.New("ref: too short")
	}
	p := s.crypt(ct[:16], ct[16:])
	if subtle.ConstantTimeCompare(s.s2v([][]byte{ad, nonce, p}), ct[:16]) != 1 {
		return nil, errors.New("ref: not authentic")
	}
	return p, nil
}

// prng returns n deterministic bytes for a seed.
func prng(seed uint64, n int) []byte {
	b := make([]byte, n)
	r := rand.NewPCG(seed, 0x9e3779b97f4a7c15)
	i := 0
	for ; i+8 <= n; i += 8 {
		binary.LittleEndian.PutUint64(b[i:], r.Uint64())
	}
	if i < n {
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], r.Uint64())
		copy(b[i:], t[:])
	}
	return b
}

// NewRefVol derives a volume's keys from a seed.
func NewRefVol(f VolFlags, seed uint64, password []byte) *RefVol {
	v := &RefVol{F: f, Master: prng(seed^0xabcdef, 32), Password: password}
	v.b64 = base64.URLEncoding
	if f.Raw64 {
		v.b64 = base64.RawURLEncoding
	}
	v.em = eme.New(mustAES(refEMEKey(v.Master, f.HKDF)))
	v.aead = refContentAEAD(v.Master, f.HKDF, f.AESSIV)
	return v
}

func refEMEKey(master []byte, hkdf bool) []byte {
	if hkdf {
		return refHKDF(master, "EME filename encryption", 32)
	}
	return master
}

func refContentAEAD(master []byte, hkdf, siv bool) refAEAD {
	if siv {
		if hkdf {
			return newRefSIV(refHKDF(master, "AES-SIV file content encryption", 64))
		}
		s := sha512.Sum512(master)
		return newRefSIV(s[:])
	}
	if hkdf {
		return newRefGCM(refHKDF(master, "AES-GCM file content encryption", 32), 16)
	}
	return newRefGCM(master, 16)
}

func mustAES(k []byte) cipher.Block {
	b, err := aes.NewCipher(k)
	if err != nil {
		panic(err)
	}
	return b
}

func refAD(blockNo uint64, id []byte) []byte {
	ad := make([]byte, 8, 24)
	binary.BigEndian.PutUint64(ad, blockNo)
	return append(ad, id...)
}

// EncBlock encrypts one block.
func (v *RefVol) EncBlock(plain []byte, no uint64, id, nonce []byte) []byte {
	return append(append([]byte{}, nonce...), v.aead.seal(nonce, plain, refAD(no, id))...)
}

// EncFile encrypts content with a file ID and nonces derived from seed. Blocks
// listed in holes (full blocks only) are stored as all-zero ciphertext.
func (v *RefVol) EncFile(content []byte, seed uint64, holes map[int]bool) []byte {
	if len(content) == 0 {
		return nil
	}
	r := prng(seed^0x51ed270b, 16)
	out := make([]byte, 0, refHeader+len(content)+(len(content)/refPlainBS+1)*refOverhead)
	out = append(out, 0, 2)
	out = append(out, r...)
	for i := 0; i*refPlainBS < len(content); i++ {
		end := (i + 1) * refPlainBS
		if end > len(content) {
			end = len(content)
		}
		blk := content[i*refPlainBS : end]
		if holes[i] && len(blk) == refPlainBS {
			out = append(out, make([]byte, refCipherBS)...)
			continue
		}
		nonce := prng(seed^uint64(i)*0x9E3779B97F4A7C15^0x77, 16)
		out = append(out, v.EncBlock(blk, uint64(i), r, nonce)...)
	}
	return out
}

var errRefCorrupt = errors.New("ref: corrupt")

// DecFile is the reference decryption of a whole file.
func (v *RefVol) DecFile(c []byte) ([]byte, error) {
	if len(c) == 0 || len(c) == refHeader {
		return []byte{}, nil
	}
	if len(c) < refHeader {
		return nil, errRefCorrupt
	}
	if c[0] != 0 || c[1] != 2 || bytes.Equal(c[2:18], make([]byte, 16)) {
		return nil, errRefCorrupt
	}
	id := c[2:18]
	body := c[18:]
	zero := make([]byte, refCipherBS)
	out := []byte{}
	for no := uint64(0); len(body) > 0; no++ {
		n := refCipherBS
		if n > len(body) {
			n = len(body)
		}
		blk := body[:n]
		body = body[n:]
		if bytes.Equal(blk, zero) {
			out = append(out, make([]byte, refPlainBS)...)
			continue
		}
		p, err := v.DecBlock(blk, no, id)
		if err != nil {
			return nil, err
		}
		out = append(out, p...)
	}
	return out, nil
}

// DecBlock is the reference decryption of one (non-hole) block.
func (v *RefVol) DecBlock(blk []byte, no uint64, id []byte) ([]byte, error) {
	if len(blk) < 32 || bytes.Equal(blk[:16], make([]byte, 16)) {
		return nil, errRefCorrupt
	}
	return v.aead.open(blk[:16], blk[16:], refAD(no, id))
}

func refPad(b []byte) []byte {
	n := 16 - len(b)%16
	return append(append([]byte{}, b...), bytes.Repeat([]byte{byte(n)}, n)...)
}

// EncName encrypts a file name under a directory IV.
func (v *RefVol) EncName(name string, iv []byte) string {
	return v.b64.EncodeToString(v.em.Encrypt(iv, refPad([]byte(name))))
}

// DecName is the reference name decryption; ok=false means "not a valid name".
func (v *RefVol) DecName(c string, iv []byte) (string, bool) {
	bin, err := v.b64.DecodeString(c)
	if err != nil || len(bin) == 0 || len(bin)%16 != 0 || len(bin) > 2048 || len(iv) != 16 {
		return "", false
	}
	p := v.em.Decrypt(iv, bin)
	n := int(p[len(p)-1])
	if n == 0 || n > 16 || n >= len(p) {
		return "", false
	}
	for _, x := range p[len(p)-n:] {
		if int(x) != n {
			return "", false
		}
	}
	s := string(p[:len(p)-n])
	if s == "." || s == ".." || bytes.IndexByte([]byte(s), 0) >= 0 || bytes.IndexByte([]byte(s), '/') >= 0 {
		return "", false
	}
	return s, true
}

// RefConf is the JSON of gocryptfs.conf.
type RefConf struct {
	Creator      string
	EncryptedKey []byte
	ScryptObject struct {
		Salt    []byte
		N, R, P int
		KeyLen  int
	}
	Version      uint16
	FeatureFlags []string
}

func refScrypt(pw, salt []byte, n, r, p, l int) []byte {
	k, err := scrypt.Key(pw, salt, n, r, p, l)
	if err != nil {
		panic(err)
	}
	return k
}

// Conf builds gocryptfs.conf for the volume.
func (v *RefVol) Conf(seed uint64) RefConf {
	var c RefConf
	c.Creator = "ref"
	c.Version = 2
	c.FeatureFlags = []string{"GCMIV128", "DirIV", "EMENames"}
	if v.F.HKDF {
		c.FeatureFlags = append(c.FeatureFlags, "HKDF")
	}
	if v.F.Raw64 {
		c.FeatureFlags = append(c.FeatureFlags, "Raw64")
	}
	if v.F.LongNames {
		c.FeatureFlags = append(c.FeatureFlags, "LongNames")
	}
	if v.F.AESSIV {
		c.FeatureFlags = append(c.FeatureFlags, "AESSIV")
	}
	c.ScryptObject.Salt = prng(seed^0x5a17, 32)
	c.ScryptObject.N = 1024
	c.ScryptObject.R = 8
	c.ScryptObject.P = 1
	c.ScryptObject.KeyLen = 32
	h := refScrypt(v.Password, c.ScryptObject.Salt, 1024, 8, 1, 32)
	c.EncryptedKey = refWrap(h, v.Master, v.F.HKDF, prng(seed^0x1111, 16))
	return c
}

// refWrap encrypts a master key under a password hash.
func refWrap(hash, master []byte, hkdf bool, nonce []byte) []byte {
	n := 12
	k := hash
	if hkdf {
		n = 16
		k = refHKDF(hash, "AES-GCM file content encryption", 32)
	}
	return append(append([]byte{}, nonce[:n]...), newRefGCM(k, n).seal(nonce[:n], master, refAD(0, nil))...)
}

// refUnwrap is the inverse.
func refUnwrap(hash, blob []byte, hkdf bool) ([]byte, error) {
	n := 12
	k := hash
	if hkdf {
		n = 16
		k = refHKDF(hash, "AES-GCM file content encryption", 32)
	}
	if len(blob) < n+16 {
		return nil, errRefCorrupt
	}
	return newRefGCM(k, n).open(blob[:n], blob[n:], refAD(0, nil))
}

// ConfJSON is Conf, serialised.
func (v *RefVol) ConfJSON(seed uint64) []byte {
	b, err := json.MarshalIndent(v.Conf(seed), "", "\t")
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}

func refPlainToCipher(n int64) int64 {
	if n == 0 {
		return 0
	}
	blocks := (n + refPlainBS - 1) / refPlainBS
	return n + blocks*refOverhead + refHeader
}

func newEME(key []byte) *eme.EMECipher { return eme.New(mustAES(key)) }
