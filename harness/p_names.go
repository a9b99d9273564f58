//go:build all || c11 || c12

package main

// C11 name encryption is the format's, and reversible; C12 name decryption of
// anything at all gives a legal name or one uniform error.

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"strings"
	"sync"
	"syscall"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/nametransform"
	"github.com/rfjakob/eme"
	"pgregory.net/rapid"
)

type nameKeys struct {
	Seed  uint64 `json:"seed"`
	HKDF  bool   `json:"hkdf"`
	Raw64 bool   `json:"raw64"`
	Long  bool   `json:"long"`
}

func genNameKeys(t *rapid.T) nameKeys {
	return nameKeys{
		Seed: rapid.Uint64().Draw(t, "seed"), HKDF: rapid.Bool().Draw(t, "hkdf"),
		Raw64: rapid.Bool().Draw(t, "raw64"), Long: rapid.Bool().Draw(t, "long"),
	}
}

func (k nameKeys) open() (*nametransform.NameTransform, *RefVol) {
	v := NewRefVol(VolFlags{HKDF: k.HKDF, Raw64: k.Raw64, LongNames: k.Long}, k.Seed, nil)
	key := append([]byte{}, v.Master...)
	cc := cryptocore.New(key, cryptocore.BackendGoGCM, 128, k.HKDF, false)
	// the caller of cryptocore.New wipes its copy of the key
	for i := range key {
		key[i] = 0
	}
	return nametransform.New(cc.EMECipher, k.Long, k.Raw64), v
}

func genLongName(t *rapid.T, label string) []byte {
	if rapid.IntRange(0, 2).Draw(t, label+"/long") != 0 {
		return genName(t, label)
	}
	n := rapid.SampledFrom([]int{16, 32, 48, 143, 144, 159, 160, 174, 175, 176, 177, 190, 191, 192, 193, 207, 208, 223, 224, 239, 240, 241, 254, 255}).Draw(t, label+"/len")
	b := prng(rapid.Uint64().Draw(t, label+"/b"), n)
	for i, c := range b {
		if c == 0 || c == '/' {
			b[i] = '-'
		}
	}
	return b
}

func genIV(t *rapid.T, label string) []byte {
	if rapid.IntRange(0, 9).Draw(t, label+"/kind") == 0 {
		return bytes.Repeat([]byte{rapid.Byte().Draw(t, label+"/c")}, 16)
	}
	return prng(rapid.Uint64().Draw(t, label), 16)
}

// ---------------------------------------------------------------- C11

type c11Case struct {
	K     nameKeys `json:"k"`
	Names [][]byte `json:"names"`
	IV    []byte   `json:"iv"`
	IV2   []byte   `json:"iv2"`
	Conc  bool     `json:"conc,omitempty"`
	Raw   [][]byte `json:"raw,omitempty"` // bytes for the base64 helpers
}

func init() {
	reg(Prop{
		ID: "C11", Quick: 50000, Thorough: 2000000,
		Rule:  "a case is a key, a feature combination, two directory IVs and 1-8 legal names of 1 to 255 bytes (weighted to cipher-block boundaries and to the point where encrypted names exceed 255 bytes), some overlong ones; non-trivial = at least two different names; oracle: reference encryption (independent padding, HKDF and encoding; shared EME permutation), inverse, injectivity, reserved-name classification",
		Setup: "non-empty names, 16-byte IVs",
	}, func(t *rapid.T, tier Tier) c11Case {
		c := c11Case{K: genNameKeys(t), IV: genIV(t, "iv"), IV2: genIV(t, "iv2"), Conc: rapid.IntRange(0, 9).Draw(t, "conc") == 0}
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "n"); i < n; i++ {
			l := fmt.Sprint("name", i)
			if rapid.IntRange(0, 11).Draw(t, l+"/over") == 0 {
				b := prng(uint64(i), rapid.SampledFrom([]int{256, 257, 271, 272, 300, 1000, 2030}).Draw(t, l+"/n"))
				for j, x := range b {
					if x == 0 || x == '/' {
						b[j] = 'o'
					}
				}
				c.Names = append(c.Names, b)
				continue
			}
			c.Names = append(c.Names, genLongName(t, l))
		}
		// near-duplicates
		if n := c.Names[0]; rapid.Bool().Draw(t, "near") {
			c.Names = append(c.Names, append(append([]byte{}, n...), byte(rapid.IntRange(1, 46).Draw(t, "suffix"))))
		}
		if rapid.IntRange(0, 3).Draw(t, "rawk") == 0 {
			c.Raw = append(c.Raw, rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw"))
		}
		return c
	}, c11Exec)
}

func c11Exec(c c11Case, rec *Rec) error {
	nt, v := c.K.open()
	iv := append([]byte{}, c.IV...)
	iv2 := append([]byte{}, c.IV2...)
	seen := map[string]string{}
	seenStored := map[string]string{}
	distinct := map[string]bool{}
	one := func(name string) error {
		enc := nt.EncryptName(name, iv)
		if want := v.EncName(name, c.IV); enc != want {
			return fmt.Errorf("name %q (%d bytes, hkdf=%v raw64=%v): encrypted as %q, the format says %q", name, len(name), c.K.HKDF, c.K.Raw64, enc, want)
		}
		if again := nt.EncryptName(name, iv); again != enc {
			return fmt.Errorf("name %q: encrypting twice gave %q and %q", name, enc, again)
		}
		for _, r := range enc {
			if !strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_=", r) {
				return fmt.Errorf("name %q: encrypted name %q has character %q", name, enc, r)
			}
		}
		dec, err := nt.DecryptName(enc, iv)
		if err != nil || dec != name {
			return fmt.Errorf("name %q (%d bytes): decrypts to %q, %v", name, len(name), dec, err)
		}
		if !bytes.Equal(c.IV, c.IV2) {
			if e2 := nt.EncryptName(name, iv2); e2 == enc {
				return fmt.Errorf("name %q: same ciphertext under two directory IVs", name)
			} else if d2, err := nt.DecryptName(e2, iv2); err != nil || d2 != name {
				return fmt.Errorf("name %q under the second IV decrypts to %q, %v", name, d2, err)
			}
			if d, err := nt.DecryptName(enc, iv2); err == nil && d == name {
				return fmt.Errorf("name %q: decrypts under a directory IV it was not encrypted with", name)
			}
		}
		// stored form
		st, err := nt.EncryptAndHashName(name, iv)
		switch {
		case len(name) > 255:
			if err == nil {
				return fmt.Errorf("a name of %d bytes was accepted (stored as %q)", len(name), st)
			}
			if err != syscall.ENAMETOOLONG {
				return fmt.Errorf("a name of %d bytes: error %v, want ENAMETOOLONG", len(name), err)
			}
			rec.Label("overlong")
			return nil
		case err != nil:
			return fmt.Errorf("name %q (%d bytes) refused: %v", name, len(name), err)
		case c.K.Long && len(enc) > 255:
			rec.Label("hashed")
			h := sha256.Sum256([]byte(enc))
			e := base64.URLEncoding
			if c.K.Raw64 {
				e = base64.RawURLEncoding
			}
			want := "gocryptfs.longname." + e.EncodeToString(h[:])
			if st != want {
				return fmt.Errorf("name of %d bytes stored as %q, the format says %q", len(name), st, want)
			}
			if nt.HashLongName(enc) != want {
				return fmt.Errorf("HashLongName gave %q, want %q", nt.HashLongName(enc), want)
			}
			if !nametransform.IsLongContent(st) || nametransform.NameType(st) != nametransform.LongNameContent {
				return fmt.Errorf("%q is not recognised as the content of a long name", st)
			}
			if nametransform.NameType(st+".name") != nametransform.LongNameFilename || nametransform.IsLongContent(st+".name") {
				return fmt.Errorf("%q is not recognised as a long-name file", st+".name")
			}
			if nametransform.RemoveLongNameSuffix(st+".name") != st {
				return fmt.Errorf("RemoveLongNameSuffix(%q) = %q", st+".name", nametransform.RemoveLongNameSuffix(st+".name"))
			}
		default:
			if st != enc {
				return fmt.Errorf("name of %d bytes (longnames=%v) stored as %q instead of %q", len(name), c.K.Long, st, enc)
			}
			if nametransform.NameType(st) != nametransform.LongNameNone || nametransform.IsLongContent(st) {
				return fmt.Errorf("%q is taken for a long name", st)
			}
		}
		return nil
	}
	for _, nb := range c.Names {
		name := string(nb)
		distinct[name] = true
		if err := one(name); err != nil {
			return err
		}
		enc := nt.EncryptName(name, iv)
		if o, ok := seen[enc]; ok && o != name {
			return fmt.Errorf("names %q and %q have the same encrypted name %q", o, name, enc)
		}
		seen[enc] = name
		if st, err := nt.EncryptAndHashName(name, iv); err == nil {
			if o, ok := seenStored[st]; ok && o != name {
				return fmt.Errorf("names %q and %q are stored under the same name %q", o, name, st)
			}
			seenStored[st] = name
		}
		if nametransform.NameType(name) != refNameType(name) || nametransform.IsLongContent(name) != (refNameType(name) == nametransform.LongNameContent) {
			return fmt.Errorf("NameType(%q) = %d, want %d", name, nametransform.NameType(name), refNameType(name))
		}
	}
	if c.Conc {
		rec.Label("concurrent")
		errs := make([]error, 8)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range c.Names {
					if err := one(string(c.Names[(j+g)%len(c.Names)])); err != nil && errs[g] == nil {
						errs[g] = fmt.Errorf("used concurrently: %v", err)
					}
				}
			}()
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
	}
	if !bytes.Equal(iv, c.IV) || !bytes.Equal(iv2, c.IV2) {
		return fmt.Errorf("the directory IV was modified")
	}
	for _, r := range c.Raw {
		s := nt.B64EncodeToString(r)
		if s != v.b64.EncodeToString(r) {
			return fmt.Errorf("B64EncodeToString(%x) = %q", r, s)
		}
		b, err := nt.B64DecodeString(s)
		if err != nil || !bytes.Equal(b, r) {
			return fmt.Errorf("B64DecodeString(%q) = %x, %v; want %x", s, b, err, r)
		}
	}
	if len(distinct) > 1 {
		rec.NonTrivial()
	}
	return nil
}

func refNameType(s string) int {
	const p = "gocryptfs.longname."
	if len(s) < len(p) || s[:len(p)] != p {
		return nametransform.LongNameNone
	}
	if len(s) >= 5 && s[len(s)-5:] == ".name" {
		return nametransform.LongNameFilename
	}
	return nametransform.LongNameContent
}

// ---------------------------------------------------------------- C12

type c12Item struct {
	Edit []int  `json:"e,omitempty"` // kind, position, character: an edit of the encoded name
	Kind string `json:"kind"`        // str, bin, plain
	B    []byte `json:"b"`
	IV   []byte `json:"iv"`
}

type c12Case struct {
	K     nameKeys  `json:"k"`
	Items []c12Item `json:"items"`
}

func init() {
	reg(Prop{
		ID: "C12", Quick: 80000, Thorough: 3000000,
		Rule:  "a case is a key, a feature combination and 1-12 encrypted names under 16-byte IVs: arbitrary strings, encodings of arbitrary byte strings up to 4,200 bytes, and encryptions of generated padded plaintexts (legal and illegal names, right and wrong padding, empty names); non-trivial = at least one item decodes to whole cipher blocks; oracle: the reference decryption; legal single components only; one and the same error for every undecryptable name made of whole blocks",
		Setup: "non-canonical encodings and names over 255 bytes may be accepted or refused",
	}, func(t *rapid.T, tier Tier) c12Case {
		c := c12Case{K: genNameKeys(t)}
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "n"); i < n; i++ {
			l := fmt.Sprint("i", i)
			it := c12Item{IV: genIV(t, l+"/iv")}
			switch rapid.IntRange(0, 9).Draw(t, l+"/kind") {
			case 0:
				it.Kind = "str"
				it.B = []byte(rapid.OneOf(rapid.StringN(0, 60, 400), rapid.StringMatching(`[A-Za-z0-9_=-]{0,90}`), rapid.SampledFrom(oddNames)).Draw(t, l))
			case 1, 2:
				it.Kind = "bin"
				n := 16 * rapid.IntRange(0, 20).Draw(t, l+"/blocks")
				switch rapid.IntRange(0, 9).Draw(t, l+"/nk") {
				case 0:
					n = rapid.SampledFrom([]int{2032, 2048, 2064, 4096, 4112, 2047, 2049}).Draw(t, l+"/big")
				case 1:
					n += rapid.IntRange(1, 15).Draw(t, l+"/odd")
				}
				it.B = prng(rapid.Uint64().Draw(t, l), n)
			default:
				it.Kind = "plain"
				it.B = genPadded(t, l)
				if rapid.IntRange(0, 7).Draw(t, l+"/edit?") == 0 {
					it.Edit = []int{rapid.IntRange(0, 4).Draw(t, l+"/edit"), rapid.IntRange(0, 400).Draw(t, l+"/pos"), rapid.IntRange(0, len(editChars)-1).Draw(t, l+"/char")}
				}
			}
			c.Items = append(c.Items, it)
		}
		return c
	}, c12Exec)
}

var illegalNames = []string{".", "..", "/", "a/b", "/etc/passwd", "../x", "\x00", "a\x00", "\x00a", "a\x00b", "..\x00", "./", "a/", "/a", "...", "..a", ".a", "a.", "....", "\x01", "\x02\x02", "a\x01", "-", " "}

// genPadded draws whole blocks as they would come out of the permutation.
func genPadded(t *rapid.T, l string) []byte {
	var b []byte
	switch rapid.IntRange(0, 5).Draw(t, l+"/what") {
	case 0, 1:
		b = []byte(rapid.SampledFrom(illegalNames).Draw(t, l))
	case 2:
		b = genLongName(t, l)
	case 3:
		// legal with one illegal byte somewhere
		b = genLongName(t, l)
		b[rapid.IntRange(0, len(b)-1).Draw(t, l+"/at")] = rapid.SampledFrom([]byte{0, '/', '.', 1, 16, 255}).Draw(t, l+"/c")
	case 4:
		b = nil
	default:
		b = prng(rapid.Uint64().Draw(t, l), rapid.IntRange(0, 300).Draw(t, l+"/n"))
	}
	n := 16 - len(b)%16
	switch rapid.IntRange(0, 5).Draw(t, l+"/pad") {
	case 0, 1, 2:
		b = refPad(b)
	case 3: // arbitrary last byte
		x := rapid.OneOf(rapid.ByteRange(0, 18), rapid.Byte()).Draw(t, l+"/x")
		b = append(append([]byte{}, b...), bytes.Repeat([]byte{x}, n)...)
	case 4: // one padding byte wrong
		b = refPad(b)
		i := len(b) - 1 - rapid.IntRange(0, n-1).Draw(t, l+"/which")
		b[i] = rapid.Byte().Draw(t, l+"/x")
	default: // whole extra blocks of padding
		b = append(refPad(b), bytes.Repeat([]byte{16}, 16*rapid.IntRange(0, 2).Draw(t, l+"/extra"))...)
	}
	return b
}

const editChars = ".=~ \t\n\r+/-_\x00#AaZz09\xff,"

func (it c12Item) name(v *RefVol, em *eme.EMECipher) string {
	s := it.stored(v, em)
	if len(it.Edit) < 3 {
		return s
	}
	p, ch := it.Edit[1]%(len(s)+1), editChars[it.Edit[2]%len(editChars):][:1]
	switch it.Edit[0] {
	case 0: // append
		return s + strings.Repeat(ch, 1+it.Edit[1]%3)
	case 1: // prepend
		return ch + s
	case 2: // insert
		return s[:p] + ch + s[p:]
	case 3: // delete
		return s[:max(0, p-1)] + s[p:]
	default: // replace
		return s[:max(0, p-1)] + ch + s[p:]
	}
}

func (it c12Item) stored(v *RefVol, em *eme.EMECipher) string {
	switch it.Kind {
	case "str":
		return string(it.B)
	case "bin":
		return v.b64.EncodeToString(it.B)
	default:
		return v.b64.EncodeToString(em.Encrypt(it.IV, it.B))
	}
}

func c12Exec(c c12Case, rec *Rec) error {
	nt, v := c.K.open()
	// the uniform error: what a name of one block with bad padding gives
	uni := ""
	for i := 0; i < 400; i++ {
		iv := prng(uint64(i)+77, 16)
		s := v.b64.EncodeToString(prng(uint64(i), 16))
		if _, ok := v.DecName(s, iv); !ok {
			_, err := nt.DecryptName(s, iv)
			if err == nil {
				return fmt.Errorf("name %q under IV %x: not a valid encrypted name, but decrypted", s, iv)
			}
			uni = err.Error()
			break
		}
	}
	for i, it := range c.Items {
		s := it.name(v, v.em)
		iv := append([]byte{}, it.IV...)
		got, err := nt.DecryptName(s, iv)
		if !bytes.Equal(iv, it.IV) {
			return fmt.Errorf("item %d: the IV was modified", i)
		}
		want, ok := v.DecName(s, it.IV)
		bin, derr := v.b64.DecodeString(s)
		canonical := derr == nil && v.b64.EncodeToString(bin) == s
		if err == nil {
			if got == "" || got == "." || got == ".." || strings.ContainsAny(got, "/\x00") {
				return fmt.Errorf("item %d (%s): name %q decrypted to the illegal name %q", i, it.Kind, s, got)
			}
			if !ok || got != want {
				return fmt.Errorf("item %d (%s): name %q decrypted to %q; by the format: valid=%v %q", i, it.Kind, s, got, ok, want)
			}
			rec.Label("decrypted")
		} else {
			if got != "" {
				return fmt.Errorf("item %d (%s): error %v together with the name %q", i, it.Kind, err, got)
			}
			if ok && canonical && len(want) <= 255 {
				return fmt.Errorf("item %d (%s): valid encrypted name %q of %q was refused: %v", i, it.Kind, s, want, err)
			}
			if derr == nil && len(bin) > 0 && len(bin)%16 == 0 && len(bin) <= 2048 && err.Error() != uni {
				return fmt.Errorf("item %d (%s): undecryptable names are distinguishable: %q for %q, %q for others", i, it.Kind, err, s, uni)
			}
			rec.Label("refused")
		}
		if derr == nil && len(bin) > 0 && len(bin)%16 == 0 {
			rec.NonTrivial()
		}
		got2, err2 := nt.DecryptName(s, iv)
		if got2 != got || (err2 == nil) != (err == nil) {
			return fmt.Errorf("item %d: decrypting twice gave %q, %v and %q, %v", i, got, err, got2, err2)
		}
	}
	return nil
}
