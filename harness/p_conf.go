//go:build all || c16 || c17 || c18

package main

// C16 the master key unlocks with the password and nothing else, C17 the
// volume configuration gate, C18 the configuration file is replaced atomically.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/handlers"
	"pgregory.net/rapid"
)

func genPassword(t *rapid.T, l string) []byte {
	switch rapid.IntRange(0, 6).Draw(t, l+"/k") {
	case 6: // NUL bytes, at any place and beyond the HMAC block size
		p := prng(rapid.Uint64().Draw(t, l), rapid.SampledFrom([]int{2, 3, 8, 64, 65, 66, 80, 200}).Draw(t, l+"/n"))
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, l+"/nul"); i < n; i++ {
			p[rapid.IntRange(0, len(p)-1).Draw(t, l+"/at")] = 0
		}
		if rapid.Bool().Draw(t, l+"/end") {
			p[len(p)-1] = 0
		}
		return p
	case 0:
		return []byte(rapid.SampledFrom([]string{"a", "A", " ", "password", "pass word", "pässwörd", "0", "\n", "test\n", "\x01", "日本語"}).Draw(t, l))
	case 1:
		return prng(rapid.Uint64().Draw(t, l), rapid.SampledFrom([]int{1, 31, 32, 63, 64, 65, 72, 73, 100, 128, 129, 255, 256, 257, 512, 1000, 1024, 1025, 2048, 2049, 4097, 10000}).Draw(t, l+"/n"))
	default:
		return rapid.SliceOfN(rapid.ByteRange(1, 255), 1, 20).Draw(t, l)
	}
}

// near returns passwords close to pw.
func near(pw []byte, kind int, a int) []byte {
	p := append([]byte{}, pw...)
	switch kind % nearKinds {
	case 0:
		p[a%len(p)] ^= 1 << (a % 8)
	case 1:
		p = p[:len(p)-1]
	case 2:
		p = append(p, byte(1+a%255))
	case 3:
		p = append([]byte{' '}, p...)
	case 4:
		p = bytes.ToUpper(p)
	case 5:
		p = bytes.TrimRight(p, "\n ")
	case 6:
		p = append(p, '\n')
	case 7:
		p = append(p, p...)
	case 8:
		p = p[len(p)/2:]
	case 9:
		p = append(p, 0)
	case 10:
		p = append(append(p, 0), byte(1+a%255))
	case 11:
		p[a%len(p)] = 0
	case 12:
		// the same beyond a C string's end
		for i := range p {
			if p[i] == 0 && i+1 < len(p) {
				p[i+1] ^= 0x55
				break
			}
		}
	case 13:
		p = bytes.ToLower(p)
	case 14:
		p[len(p)-1] ^= 0x80
	case 15:
		p = append([]byte{0}, p...)
	case 16:
		p[len(p)-1-a%len(p)] ^= 1
	case 17:
		p = p[:1+len(p)*a/256]
	}
	return p
}

const nearKinds = 18

// ---------------------------------------------------------------- C16

type c16Try struct {
	Kind int    `json:"kind"`
	A    int    `json:"a"`
	Pw   []byte `json:"pw,omitempty"`
}

type c16Tamper struct {
	Kind string `json:"kind"`
	A    int    `json:"a"`
	B    int    `json:"b"`
}

type c16Case struct {
	Src      string      `json:"src"` // create, ref
	Flags    VolFlags    `json:"f"`
	Seed     uint64      `json:"seed"`
	Pw       []byte      `json:"pw"`
	LogN     int         `json:"logn"`
	DevRand  bool        `json:"devrand,omitempty"`
	Trezor   bool        `json:"trezor,omitempty"`
	Plain    bool        `json:"plain,omitempty"`
	Creator  string      `json:"creator,omitempty"`
	Salt     int         `json:"salt,omitempty"` // more salt than usual (ref)
	R        int         `json:"r,omitempty"`    // more than 8 (ref)
	P        int         `json:"p,omitempty"`    // more than 1 (ref)
	Wrong    []c16Try    `json:"wrong"`
	Changes  [][]byte    `json:"changes,omitempty"`
	Tampers  []c16Tamper `json:"tampers,omitempty"`
	ThruTree bool        `json:"tree,omitempty"`
}

var c16Tampers = []string{"flip", "trunc", "extend", "empty", "hole", "hole-other", "otherlen", "otherlen", "salt", "n", "r", "p", "hkdf", "swapkey"}

func init() {
	reg(Prop{
		ID: "C16", Quick: 600, Thorough: 8000, Fixed: c16Fixed,
		Rule:  "a case is a volume configuration, created by the code under test or by the reference (all feature combinations), a password, near-miss and arbitrary wrong passwords, up to two password changes, and alterations of the stored key, salt, cost and flags (including authentic wrappings of keys of the wrong length); opened through the config file functions and through the tree; non-trivial = a wrong password or an altered configuration was refused; oracle: reference scrypt and unwrapping decide exactly which attempts succeed and with which key",
		Setup: "cost parameter logN 10 to 12 (each up to 18 once per run); passwords that scrypt itself cannot distinguish are judged as the reference does",
	}, func(t *rapid.T, tier Tier) c16Case {
		c := c16Case{
			Src: rapid.SampledFrom([]string{"create", "ref"}).Draw(t, "src"), Flags: genFlags(t), Seed: rapid.Uint64().Draw(t, "seed"),
			Pw: genPassword(t, "pw"), LogN: rapid.SampledFrom([]int{10, 10, 10, 10, 10, 10, 11, 12}).Draw(t, "logn"),
			DevRand: rapid.Bool().Draw(t, "devrand"), Trezor: rapid.IntRange(0, 5).Draw(t, "trezor") == 0, Plain: rapid.IntRange(0, 9).Draw(t, "plain") == 0,
			ThruTree: rapid.Bool().Draw(t, "tree"),
		}
		c.Creator = rapid.SampledFrom([]string{"harness", "gocryptfs v1.7.1", "", "\u00fc \"x\"\n", strings.Repeat("long ", 60)}).Draw(t, "creator")
		if c.Src == "ref" && rapid.IntRange(0, 2).Draw(t, "odd") == 0 {
			switch rapid.IntRange(0, 2).Draw(t, "oddk") {
			case 0:
				c.Salt = rapid.SampledFrom([]int{1, 2, 16, 31, 32, 33, 96, 200}).Draw(t, "salt")
			case 1:
				c.R = rapid.IntRange(9, 17).Draw(t, "r")
			default:
				c.P = rapid.IntRange(2, 5).Draw(t, "p")
			}
		}
		if rapid.IntRange(0, 199).Draw(t, "deflogn") == 0 {
			c.LogN = rapid.SampledFrom([]int{0, -1}).Draw(t, "logn0")
			c.Wrong = []c16Try{{Kind: rapid.IntRange(0, nearKinds-1).Draw(t, "w"), A: 1}}
			return c
		}
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "nw"); i < n; i++ {
			l := fmt.Sprint("w", i)
			w := c16Try{Kind: rapid.IntRange(0, nearKinds+3).Draw(t, l), A: rapid.IntRange(0, 255).Draw(t, l+"/a")}
			if w.Kind >= nearKinds {
				w.Pw = genPassword(t, l+"/pw")
			}
			c.Wrong = append(c.Wrong, w)
		}
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "nc"); i < n; i++ {
			c.Changes = append(c.Changes, genPassword(t, fmt.Sprint("c", i)))
		}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nt"); i < n; i++ {
			l := fmt.Sprint("t", i)
			c.Tampers = append(c.Tampers, c16Tamper{rapid.SampledFrom(c16Tampers).Draw(t, l), rapid.IntRange(0, 5000).Draw(t, l+"/a"), rapid.IntRange(0, 7).Draw(t, l+"/b")})
		}
		return c
	}, c16Exec)
}

// c16Fixed has every practical cost parameter once.
func c16Fixed(tier Tier, seed uint64) []any {
	var out []any
	for i, n := range []int{0, -1, 13, 14, 15, 16, 17, 18} {
		c := c16Case{Src: "create", Flags: VolFlags{HKDF: true, Raw64: true, AESSIV: i%2 == 0}, Seed: seed*13 + uint64(i), Pw: []byte("a passphrase"), LogN: n, Creator: "harness", Wrong: []c16Try{{Kind: i, A: i}}}
		out = append(out, c)
		if n > 0 {
			c.Src = "ref"
			c.ThruTree = true
			out = append(out, c)
		}
	}
	return out
}

func hasFlag(c RefConf, f string) bool {
	for _, x := range c.FeatureFlags {
		if x == f {
			return true
		}
	}
	return false
}

// refUnlock decides what a password gives for a configuration.
func refUnlock(rc RefConf, pw []byte) ([]byte, bool) {
	h := refScrypt(pw, rc.ScryptObject.Salt, rc.ScryptObject.N, rc.ScryptObject.R, rc.ScryptObject.P, rc.ScryptObject.KeyLen)
	k, err := refUnwrap(h, rc.EncryptedKey, hasFlag(rc, "HKDF"))
	return k, err == nil && len(k) == 32
}

func readConf(p string) (RefConf, error) {
	var rc RefConf
	b, err := os.ReadFile(p)
	if err != nil {
		return rc, err
	}
	return rc, json.Unmarshal(b, &rc)
}

func putConf(p string, rc any) error {
	b, err := json.MarshalIndent(rc, "", "\t")
	if err != nil {
		return err
	}
	_ = os.Remove(p)
	return os.WriteFile(p, b, 0o600)
}

func c16Exec(c c16Case, rec *Rec) error {
	dir, err := os.MkdirTemp("", "c16")
	if err != nil {
		return inconclusive("%v", err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "gocryptfs.conf")
	var rc RefConf
	if c.Src == "create" {
		var tp []byte
		if c.Trezor {
			tp = prng(c.Seed, 32)
		}
		if err := configfile.Create(file, append([]byte{}, c.Pw...), c.Plain, c.LogN, c.Creator, c.Flags.AESSIV, c.DevRand, tp); err != nil {
			return fmt.Errorf("Create failed: %v", err)
		}
		if rc, err = readConf(file); err != nil {
			return fmt.Errorf("the created configuration is not readable: %v", err)
		}
		logN := c.LogN
		if logN <= 0 {
			logN = 16
		}
		s := rc.ScryptObject
		if s.N != 1<<logN || s.R != 8 || s.P != 1 || s.KeyLen != 32 || len(s.Salt) != 32 || rc.Version != 2 {
			return fmt.Errorf("created with logN %d: parameters N=%d R=%d P=%d KeyLen=%d salt %d bytes version %d", c.LogN, s.N, s.R, s.P, s.KeyLen, len(s.Salt), rc.Version)
		}
		want := map[string]bool{"GCMIV128": true, "HKDF": true, "DirIV": !c.Plain, "EMENames": !c.Plain, "LongNames": !c.Plain, "Raw64": !c.Plain, "PlaintextNames": c.Plain, "AESSIV": c.Flags.AESSIV, "Trezor": c.Trezor}
		for f, w := range want {
			if hasFlag(rc, f) != w {
				return fmt.Errorf("created with plaintextnames=%v aessiv=%v trezor=%v: flags %v", c.Plain, c.Flags.AESSIV, c.Trezor, rc.FeatureFlags)
			}
		}
		rec.Label("created")
	} else {
		v := NewRefVol(c.Flags, c.Seed, c.Pw)
		rc = v.Conf(c.Seed)
		rc.Creator = c.Creator
		if so := &rc.ScryptObject; c.LogN > 10 || c.Salt > 0 || c.R > 0 || c.P > 0 {
			so.N, so.R, so.P = 1<<max(10, c.LogN), max(8, c.R), max(1, c.P)
			so.Salt = append(so.Salt, prng(c.Seed^77, c.Salt)...)
			rc.EncryptedKey = refWrap(refScrypt(c.Pw, so.Salt, so.N, so.R, so.P, 32), v.Master, c.Flags.HKDF, prng(c.Seed, 16))
			rec.Label("other scrypt parameters")
		}
		if err := putConf(file, rc); err != nil {
			return inconclusive("%v", err)
		}
		rec.Label("written by the reference")
	}
	master, ok := refUnlock(rc, c.Pw)
	if !ok {
		return fmt.Errorf("the configuration (%s) does not unlock with its own password by the format", c.Src)
	}
	// attempt one unlocking and compare with the reference
	attempt := func(what string, file string, rc RefConf, pw []byte) error {
		var want []byte
		var ok bool
		if len(pw) > 0 {
			want, ok = refUnlock(rc, pw)
		}
		if len(pw) == 0 {
			// documented: no password, no key
			k, _, _ := configfile.LoadAndDecrypt(file, pw)
			if len(k) != 0 {
				return fmt.Errorf("%s: an empty password gave a key", what)
			}
		} else {
			in := append([]byte{}, pw...)
			k, cf, err := configfile.LoadAndDecrypt(file, in)
			if !bytes.Equal(in, pw) {
				return fmt.Errorf("%s: the caller's password was modified", what)
			}
			if err := cmpUnlock(what+" (LoadAndDecrypt)", k, err, want, ok); err != nil {
				return err
			}
			if (cf != nil) != ok {
				return fmt.Errorf("%s: configuration returned: %v, unlocked: %v", what, cf != nil, ok)
			}
			cf, err = configfile.Load(file)
			if err != nil {
				return fmt.Errorf("%s: Load: %v", what, err)
			}
			reps := 1
			if what == "right password" {
				reps = 2
			}
			for i := 0; i < reps; i++ {
				k, err = cf.DecryptMasterKey(pw)
				if err := cmpUnlock(what+" (DecryptMasterKey)", k, err, want, ok); err != nil {
					return err
				}
			}
			if !ok {
				rec.NonTrivial()
				rec.Label("refused")
			}
		}
		if c.ThruTree && !c.Plain {
			m := newMemFS()
			d := m.mkdirAll("/v")
			b, err := os.ReadFile(file)
			if err != nil {
				return inconclusive("%v", err)
			}
			d.add(&MNode{name: "gocryptfs.conf", data: b})
			iv := prng(c.Seed+1, 16)
			d.add(&MNode{name: "gocryptfs.diriv", data: iv})
			f := VolFlags{HKDF: hasFlag(rc, "HKDF"), Raw64: hasFlag(rc, "Raw64"), AESSIV: hasFlag(rc, "AESSIV")}
			if ok {
				v := refVolFor(f, want)
				d.add(&MNode{name: v.EncName("hello", iv), data: v.EncFile([]byte("world"), 7, nil)})
			}
			ft, err := filetree.Init("/v", append([]byte{}, pw...), 2, m)
			if ok != (err == nil) {
				return fmt.Errorf("%s: opening the volume: %v, the password is right: %v", what, err, ok)
			}
			if ok {
				got, err := ft.ReadFile("/hello")
				if err != nil || string(got) != "world" {
					return fmt.Errorf("%s: opened, but a file reads %q, %v", what, got, err)
				}
			}
			rec.Label("through the tree")
			if rc.ScryptObject.N <= 1<<12 {
				h, err := handlers.DecryptHandler("/v", append([]byte{}, pw...), 2, m)
				if ok != (err == nil) {
					return fmt.Errorf("%s: creating the handlers: %v, the password is right: %v", what, err, ok)
				}
				if !ok && (h.FileGet != nil || h.FileList != nil) {
					return fmt.Errorf("%s: handlers were created", what)
				}
				rec.Label("through the handlers")
			}
		}
		return nil
	}
	if err := attempt("right password", file, rc, c.Pw); err != nil {
		return err
	}
	if err := attempt("empty password", file, rc, nil); err != nil {
		return err
	}
	for i, w := range c.Wrong {
		pw := w.Pw
		if w.Kind < nearKinds {
			pw = near(c.Pw, w.Kind, w.A)
		}
		if err := attempt(fmt.Sprintf("password attempt %d: %q for %q", i, pw, c.Pw), file, rc, pw); err != nil {
			return err
		}
	}
	// password changes keep the key
	old := c.Pw
	for i, npw := range c.Changes {
		cf, err := configfile.Load(file)
		if err != nil {
			return fmt.Errorf("Load: %v", err)
		}
		k := append([]byte{}, master...)
		cf.EncryptKey(k, append([]byte{}, npw...), 10)
		if !bytes.Equal(k, master) {
			return fmt.Errorf("EncryptKey modified the caller's key")
		}
		if err := cf.WriteFile(); err != nil {
			return fmt.Errorf("password change %d: %v", i, err)
		}
		nrc, err := readConf(file)
		if err != nil {
			return fmt.Errorf("after password change %d: %v", i, err)
		}
		if bytes.Equal(nrc.ScryptObject.Salt, rc.ScryptObject.Salt) || bytes.Equal(nrc.EncryptedKey, rc.EncryptedKey) {
			return fmt.Errorf("password change %d reused salt or nonce", i)
		}
		if strings.Join(nrc.FeatureFlags, ",") != strings.Join(rc.FeatureFlags, ",") || nrc.Version != rc.Version || nrc.Creator != rc.Creator {
			return fmt.Errorf("password change %d changed the volume: %v -> %v", i, rc.FeatureFlags, nrc.FeatureFlags)
		}
		rc = nrc
		if k, ok := refUnlock(rc, npw); !ok || !bytes.Equal(k, master) {
			return fmt.Errorf("after password change %d the key does not unlock with the new password, or is another key", i)
		}
		if err := attempt(fmt.Sprintf("new password after change %d", i), file, rc, npw); err != nil {
			return err
		}
		if err := attempt(fmt.Sprintf("old password after change %d", i), file, rc, old); err != nil {
			return err
		}
		old = npw
		rec.Label("password change")
	}
	// alterations
	for i, tm := range c.Tampers {
		x := rc
		x.EncryptedKey = append([]byte{}, rc.EncryptedKey...)
		x.ScryptObject.Salt = append([]byte{}, rc.ScryptObject.Salt...)
		x.FeatureFlags = append([]string{}, rc.FeatureFlags...)
		over := 28
		if hasFlag(rc, "HKDF") {
			over = 32
		}
		h := func() []byte {
			return refScrypt(old, x.ScryptObject.Salt, x.ScryptObject.N, x.ScryptObject.R, x.ScryptObject.P, 32)
		}
		switch tm.Kind {
		case "flip":
			x.EncryptedKey[tm.A%len(x.EncryptedKey)] ^= 1 << tm.B
		case "trunc":
			x.EncryptedKey = x.EncryptedKey[:tm.A%len(x.EncryptedKey)]
		case "extend":
			x.EncryptedKey = append(x.EncryptedKey, prng(uint64(tm.A), 1+tm.B)...)
		case "empty":
			x.EncryptedKey = []byte{}
		case "hole":
			x.EncryptedKey = make([]byte, 4096+over)
		case "hole-other":
			x.EncryptedKey = make([]byte, tm.A)
		case "otherlen":
			n := []int{0, 1, 16, 31, 33, 48, 64, 4000}[tm.B]
			x.EncryptedKey = refWrap(h(), prng(9, n), hasFlag(rc, "HKDF"), prng(uint64(tm.A), 16))
		case "swapkey":
			// an authentic wrapping of another 32-byte key
			x.EncryptedKey = refWrap(h(), prng(uint64(tm.A), 32), hasFlag(rc, "HKDF"), prng(uint64(tm.A), 16))
		case "salt":
			x.ScryptObject.Salt[tm.A%32] ^= 1 << tm.B
		case "n":
			x.ScryptObject.N = 1 << (10 + (tm.A % 3))
		case "r":
			x.ScryptObject.R += 1 + tm.A%3
		case "p":
			x.ScryptObject.P += 1 + tm.A%2
		case "hkdf":
			var fl []string
			for _, f := range x.FeatureFlags {
				if f != "HKDF" {
					fl = append(fl, f)
				}
			}
			if len(fl) == len(x.FeatureFlags) {
				fl = append(fl, "HKDF")
			}
			x.FeatureFlags = fl
		}
		f2 := filepath.Join(dir, fmt.Sprint("altered", i))
		if err := putConf(f2, x); err != nil {
			return inconclusive("%v", err)
		}
		if err := attempt(fmt.Sprintf("configuration altered by %+v", tm), f2, x, old); err != nil {
			return err
		}
		rec.Label("altered: " + tm.Kind)
	}
	return nil
}

func refVolFor(f VolFlags, master []byte) *RefVol {
	v := NewRefVol(f, 0, nil)
	w := *v
	w.Master = master
	w.em = newEME(refEMEKey(master, f.HKDF))
	w.aead = refContentAEAD(master, f.HKDF, f.AESSIV)
	return &w
}

func cmpUnlock(what string, k []byte, err error, want []byte, ok bool) error {
	if ok {
		if err != nil {
			return fmt.Errorf("%s: refused: %v", what, err)
		}
		if !bytes.Equal(k, want) {
			return fmt.Errorf("%s: unlocked another key (%d bytes)", what, len(k))
		}
		return nil
	}
	if err == nil {
		return fmt.Errorf("%s: accepted, with a key of %d bytes", what, len(k))
	}
	if len(k) != 0 {
		return fmt.Errorf("%s: refused, but a key of %d bytes came with the error", what, len(k))
	}
	return nil
}

// ---------------------------------------------------------------- C17

type c17Case struct {
	Flags   VolFlags `json:"f"`
	Seed    uint64   `json:"seed"`
	Pw      []byte   `json:"pw"`
	Version int      `json:"ver"`
	VerRaw  string   `json:"verraw,omitempty"` // raw JSON for Version, if set
	FlagSet []string `json:"flags"`
	N       int      `json:"n"`
	R       int      `json:"r"`
	P       int      `json:"p"`
	KeyLen  int      `json:"keylen"`
	Salt    int      `json:"salt"`
	Raw     string   `json:"raw,omitempty"` // damage to the JSON text: cut, junk, empty, ...
	A       int      `json:"a,omitempty"`
	Via     string   `json:"via"` // load, tree
}

var c17Known = []string{"PlaintextNames", "DirIV", "EMENames", "GCMIV128", "LongNames", "AESSIV", "Raw64", "HKDF", "Trezor"}
var c17Odd = []string{"hkdf", "HKDF ", "", "StrangeFeature", "FIDO2", "XChaCha20Poly1305", "LongNameMax", "Raw 64", "DirIV2", "gcmiv128", "AESSIV\u0000", "EMENames,DirIV", "0", "Reverse"}

// c17Expect: ok, refuse, or either; died: a deliberate exit is acceptable.
func c17Expect(c c17Case) (ok, died bool) {
	if c.Raw != "" && c.Raw != "extra" && c.Raw != "space" {
		return false, false
	}
	if c.VerRaw != "" || c.Version != 2 {
		return false, false
	}
	set := map[string]bool{}
	for _, f := range c.FlagSet {
		known := false
		for _, k := range c17Known {
			if k == f {
				known = true
			}
		}
		if !known {
			return false, false
		}
		set[f] = true
	}
	if !set["GCMIV128"] {
		return false, false
	}
	if !set["PlaintextNames"] && (!set["DirIV"] || !set["EMENames"]) {
		return false, false
	}
	if c.N < 1024 || c.R < 8 || c.P < 1 || c.Salt < 32 || c.KeyLen < 32 || c.KeyLen != 32 || c.N&(c.N-1) != 0 {
		return false, true
	}
	return true, false
}

func init() {
	p := reg(Prop{
		ID: "C17", Quick: 6000, Thorough: 200000,
		Rule:  "a case is a volume configuration with the right password whose version, feature flags (dropped, added, misspelt, duplicated), scrypt parameters (around their minima) or JSON text (cut, damaged, empty, replaced) are varied, opened through the config file functions or the tree; non-trivial = the configuration had to be refused; oracle: a predicate over the fields; refusal is an error, or for scrypt parameters a deliberate exit, and never a key",
		Setup: "the stored key is wrapped consistently with the (weak) parameters wherever possible, so that only the gate stands in the way",
	}, func(t *rapid.T, tier Tier) c17Case {
		c := c17Case{Flags: genFlags(t), Seed: rapid.Uint64().Draw(t, "seed"), Pw: genPassword(t, "pw"), Version: 2, N: 1024, R: 8, P: 1, KeyLen: 32, Salt: 32, Via: rapid.SampledFrom([]string{"load", "tree"}).Draw(t, "via")}
		c.FlagSet = []string{"GCMIV128", "DirIV", "EMENames"}
		if c.Flags.HKDF {
			c.FlagSet = append(c.FlagSet, "HKDF")
		}
		if c.Flags.Raw64 {
			c.FlagSet = append(c.FlagSet, "Raw64")
		}
		if c.Flags.LongNames {
			c.FlagSet = append(c.FlagSet, "LongNames")
		}
		if c.Flags.AESSIV {
			c.FlagSet = append(c.FlagSet, "AESSIV")
		}
		k := rapid.IntRange(0, 11).Draw(t, "what")
		if k == 0 {
			c.Version = rapid.OneOf(rapid.IntRange(0, 65535), rapid.SampledFrom([]int{0, 1, 3, 258, 514, 65535})).Draw(t, "ver")
		}
		if k == 1 {
			c.VerRaw = rapid.SampledFrom([]string{`"2"`, `2.5`, `-2`, `65538`, `null`, `[2]`, `true`, `{}`, "absent"}).Draw(t, "verraw")
		}
		if k == 2 || k == 3 {
			i := rapid.IntRange(0, len(c.FlagSet)-1).Draw(t, "drop")
			c.FlagSet = append(append([]string{}, c.FlagSet[:i]...), c.FlagSet[i+1:]...)
		}
		if k == 4 || k == 5 {
			f := rapid.SampledFrom(c17Odd).Draw(t, "odd")
			if rapid.IntRange(0, 2).Draw(t, "long") == 0 {
				// a long list of known flags, repeated
				c.FlagSet = append(c.FlagSet, rapid.SliceOfN(rapid.SampledFrom(c.FlagSet), 1, 40).Draw(t, "rep")...)
			}
			i := rapid.IntRange(0, len(c.FlagSet)).Draw(t, "at")
			c.FlagSet = append(append(append([]string{}, c.FlagSet[:i]...), f), c.FlagSet[i:]...)
		}
		if k == 6 {
			c.FlagSet = rapid.SliceOfN(rapid.SampledFrom(c17Known), 0, 7).Draw(t, "flags")
		}
		if k == 7 || k == 8 {
			if rapid.IntRange(0, 5).Draw(t, "otherwise strong") == 0 {
				c.N = rapid.SampledFrom([]int{2048, 16384, 32768, 65536}).Draw(t, "n/strong")
				c.R = rapid.SampledFrom([]int{8, 8, 9, 16}).Draw(t, "r/strong")
				c.Salt = rapid.SampledFrom([]int{32, 64, 128}).Draw(t, "salt/strong")
			}
			switch rapid.IntRange(0, 4).Draw(t, "param") {
			case 0:
				c.N = rapid.SampledFrom([]int{-1024, -1, 0, 1, 2, 16, 256, 512, 1023, 1024, 1025, 1536, 2048, 4096, 8192, 16384}).Draw(t, "n")
			case 1:
				c.R = rapid.OneOf(rapid.IntRange(-2, 10), rapid.SampledFrom([]int{16, 24, 32})).Draw(t, "r")
			case 2:
				c.P = rapid.IntRange(-2, 6).Draw(t, "p")
			case 3:
				c.KeyLen = rapid.SampledFrom([]int{-1, 0, 1, 16, 24, 31, 32, 33, 64}).Draw(t, "keylen")
			default:
				c.Salt = rapid.OneOf(rapid.IntRange(0, 40), rapid.SampledFrom([]int{48, 63, 64, 65, 100, 128, 300})).Draw(t, "salt")
			}
		}
		if k == 9 {
			c.Raw = rapid.SampledFrom([]string{"cut", "junk", "empty", "null", "array", "string", "nokey", "keytype", "flagstype", "tail", "after", "after", "before", "comma", "quotes", "extra", "space", "missing", "zeros"}).Draw(t, "raw")
			c.A = rapid.IntRange(0, 10000).Draw(t, "a")
		}
		return c
	}, c17Exec)
	p.onDeath = func(js []byte, exit int, stderr string) (error, bool) {
		var c c17Case
		if json.Unmarshal(js, &c) != nil {
			return nil, false
		}
		ok, died := c17Expect(c)
		if ok {
			return fmt.Errorf("a supported volume was refused: the process ended with code %d: %s", exit, firstPanic(stderr)), true
		}
		if !died {
			return fmt.Errorf("the process died (code %d) instead of reporting an error: %s", exit, firstPanic(stderr)), true
		}
		// code 13 = exit for scrypt parameters; 2 = a deliberate panic
		if exit != 13 && exit != 2 {
			return fmt.Errorf("the process ended with code %d: %s", exit, firstPanic(stderr)), true
		}
		return nil, true
	}
}

func c17Exec(c c17Case, rec *Rec) (err error) {
	// a deliberate panic over the scrypt parameters is a refusal; nothing was
	// returned then
	if _, died := c17Expect(c); died {
		defer func() {
			if r := recover(); r != nil {
				rec.Label("refused by panicking")
				err = nil
			}
		}()
	}
	return c17Run(c, rec)
}

func c17Run(c c17Case, rec *Rec) error {
	v := NewRefVol(c.Flags, c.Seed, c.Pw)
	m := map[string]any{"Creator": "harness", "Version": c.Version, "FeatureFlags": c.FlagSet}
	hk := false
	for _, f := range c.FlagSet {
		if f == "HKDF" {
			hk = true
		}
	}
	salt := prng(c.Seed^3, c.Salt)
	n, r, p := c.N, c.R, c.P
	if n < 2 || n&(n-1) != 0 {
		n = 1024
	}
	if r < 1 {
		r = 8
	}
	if p < 1 {
		p = 1
	}
	hash := refScrypt(c.Pw, salt, n, r, p, 32)
	m["EncryptedKey"] = refWrap(hash, v.Master, hk, prng(c.Seed^8, 16))
	m["ScryptObject"] = map[string]any{"Salt": salt, "N": c.N, "R": c.R, "P": c.P, "KeyLen": c.KeyLen}
	switch c.VerRaw {
	case "":
	case "absent":
		delete(m, "Version")
	default:
		m["Version"] = json.RawMessage(c.VerRaw)
	}
	switch c.Raw {
	case "nokey":
		delete(m, "EncryptedKey")
	case "keytype":
		m["EncryptedKey"] = "%%%not base64"
	case "flagstype":
		m["FeatureFlags"] = "HKDF"
	case "extra":
		m["SomethingNew"] = map[string]int{"x": 1}
	}
	b, err := json.MarshalIndent(m, "", "\t")
	if err != nil {
		return inconclusive("%v", err)
	}
	switch c.Raw {
	case "cut":
		b = b[:c.A%(len(b)-1)]
		if len(b) == 0 {
			b = b[:0]
		}
	case "junk":
		b[c.A%len(b)] = 0xff
		if json.Valid(b) {
			// inside a string: not a structural damage
			return nil
		}
	case "empty":
		b = nil
	case "null":
		b = []byte("null")
	case "array":
		b = append(append([]byte("["), b...), ']')
	case "string":
		b = []byte(`"gocryptfs"`)
	case "tail":
		b = append(b, []byte("}")...)
	case "after":
		b = append(b, []string{"x", "\n# end", " null", "\x00", "\n\n{}", string(b), "]", "\n// end\n", ",", "\xff", "{", "\n0"}[c.A%12]...)
	case "before":
		b = append([]byte([]string{"x", "// begin\n", "\xef\xbb\xbf", "\x00", "{}\n", "null ", ",", "#!\n"}[c.A%8]), b...)
	case "comma":
		b = append(bytes.TrimRight(b, "\n}"), []byte(",\n}\n")...)
	case "quotes":
		b = bytes.ReplaceAll(b, []byte{'"'}, []byte{'\''})
	case "space":
		b = append(append([]byte("\n \t"), b...), []byte("\n\n")...)
	case "zeros":
		b = make([]byte, len(b))
	}
	ok, _ := c17Expect(c)
	if !ok {
		rec.NonTrivial()
		rec.Label("must be refused")
	} else {
		rec.Label("must be accepted")
	}
	if c.Via == "load" {
		dir, err := os.MkdirTemp("", "c17")
		if err != nil {
			return inconclusive("%v", err)
		}
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "conf")
		if c.Raw != "missing" {
			if err := os.WriteFile(file, b, 0o600); err != nil {
				return inconclusive("%v", err)
			}
		}
		k, cf, err := configfile.LoadAndDecrypt(file, c.Pw)
		if ok {
			if err != nil {
				return fmt.Errorf("a supported volume (%s) was refused: %v", clip(string(b), 600), err)
			}
			if !bytes.Equal(k, v.Master) || cf == nil {
				return fmt.Errorf("a supported volume gave the wrong key")
			}
			return nil
		}
		if err == nil {
			return fmt.Errorf("an unsupported volume was accepted: %s", clip(string(b), 800))
		}
		if len(k) != 0 {
			return fmt.Errorf("a key came with the error %v", err)
		}
		return nil
	}
	fs := newMemFS()
	d := fs.mkdirAll("/v")
	if c.Raw != "missing" {
		d.add(&MNode{name: "gocryptfs.conf", data: b})
	}
	iv := prng(c.Seed+1, 16)
	d.add(&MNode{name: "gocryptfs.diriv", data: iv})
	f := VolFlags{HKDF: hk}
	plain := false
	for _, x := range c.FlagSet {
		switch x {
		case "Raw64":
			f.Raw64 = true
		case "AESSIV":
			f.AESSIV = true
		case "PlaintextNames":
			plain = true
		}
	}
	w := refVolFor(f, v.Master)
	d.add(&MNode{name: w.EncName("hello", iv), data: w.EncFile([]byte("world"), 7, nil)})
	ft, err := filetree.Init("/v", append([]byte{}, c.Pw...), 2, fs)
	if !ok && err != nil {
		if _, err := handlers.DecryptHandler("/v", append([]byte{}, c.Pw...), 2, fs); err == nil {
			return fmt.Errorf("handlers were created for an unsupported volume (%s)", clip(string(b), 600))
		}
	}
	if ok {
		if err != nil {
			if plain {
				return nil // the README leaves volumes without name encryption out
			}
			return fmt.Errorf("a supported volume (%s) was refused: %v", clip(string(b), 600), err)
		}
		if !plain {
			got, err := ft.ReadFile("/hello")
			if err != nil || string(got) != "world" {
				return fmt.Errorf("flags %v: opened, but a file reads %q, %v", c.FlagSet, got, err)
			}
		}
		return nil
	}
	if err == nil {
		return fmt.Errorf("an unsupported volume was opened: %s", clip(string(b), 800))
	}
	return nil
}

// ---------------------------------------------------------------- C18

type c18Case struct {
	Aim   bool   `json:"aim,omitempty"`   // inject: the fault is in the rewrite itself
	Fresh int    `json:"fresh,omitempty"` // a new volume: 1 nothing there yet, 2 an empty file, 3 another volume's
	Kind  string `json:"kind"`            // seq, inject, kill, fsize, readers, writers, order, staletmp
	Seed  uint64 `json:"seed"`
	Steps int    `json:"steps"`
	Call  string `json:"call,omitempty"`
	Nth   int    `json:"nth,omitempty"`
	Err   string `json:"err,omitempty"`
	Limit int    `json:"limit,omitempty"`
	Delay int    `json:"delay,omitempty"` // microseconds
}

func init() {
	modes["confwrite"] = c18Helper
	reg(Prop{
		ID: "C18", Quick: 1600, Thorough: 12000,
		Rule:  "a case is a sequence of rewrites of a configuration file (password changes) in which a generated system call of the writing process fails with a generated error or kills it, the file size limit cuts the write short, the process is killed at a random moment, other processes read or write at the same time, or a temporary file of the same name already exists; non-trivial = a fault was injected or a concurrent access took place; oracle: the file is at every moment byte for byte a complete configuration, old or new, as the writer's result says; failed writes can be repeated",
		Setup: "system calls are injected with strace; whole-machine power loss is represented by the order of flush and rename only",
	}, func(t *rapid.T, tier Tier) c18Case {
		c := c18Case{Kind: rapid.SampledFrom([]string{"seq", "inject", "inject", "inject", "inject", "kill", "fsize", "fsize", "readers", "writers", "order", "staletmp"}).Draw(t, "kind"), Seed: rapid.Uint64().Draw(t, "seed"), Steps: rapid.IntRange(1, 4).Draw(t, "steps")}
		switch c.Kind {
		case "seq", "inject", "kill", "fsize", "order":
			if rapid.IntRange(0, 2).Draw(t, "fresh") == 0 {
				c.Fresh = rapid.IntRange(1, 3).Draw(t, "pre")
			}
		}
		switch c.Kind {
		case "inject":
			c.Call = rapid.SampledFrom([]string{"write", "pwrite64", "close", "fsync", "rename", "renameat", "openat", "any"}).Draw(t, "call")
			c.Nth = rapid.IntRange(1, 6).Draw(t, "nth")
			if c.Call == "any" {
				c.Nth = rapid.IntRange(1, 30).Draw(t, "nth2")
			}
			c.Err = rapid.SampledFrom([]string{"error=EIO", "error=ENOSPC", "error=EDQUOT", "signal=KILL"}).Draw(t, "err")
			c.Aim = rapid.Bool().Draw(t, "aim")
		case "kill":
			c.Delay = rapid.IntRange(0, 3000).Draw(t, "delay")
		case "fsize":
			c.Limit = rapid.IntRange(0, 700).Draw(t, "limit")
		}
		return c
	}, c18Exec)
}

// c18Helper FILE PASSWORD LIMIT: rewrites the configuration with a new
// password and reports on stdout.
func c18Helper(args []string) int {
	runtime.LockOSThread()
	signal.Ignore(syscall.SIGXFSZ)
	var cf *configfile.ConfFile
	var err error
	if args[3] != "create" {
		if cf, err = configfile.Load(args[0]); err != nil {
			fmt.Println("load:", err)
			return 5
		}
		cf.EncryptKey(prng(42, 32), []byte(args[1]), 10)
	}
	if lim, _ := strconv.Atoi(args[2]); lim >= 0 {
		r := syscall.Rlimit{Cur: uint64(lim), Max: uint64(lim)}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &r); err != nil {
			fmt.Println("rlimit:", err)
			return 6
		}
	}
	os.Stdout.WriteString("ready\n")
	if cf == nil {
		err = configfile.Create(args[0], []byte(args[1]), false, 10, "harness", false, false, nil)
	} else {
		err = cf.WriteFile()
	}
	if err != nil {
		os.Stderr.WriteString("write: " + err.Error() + "\n")
		return 4
	}
	return 0
}

// c18Rehearse rewrites a copy of the file and counts the system calls of the
// given set that the writer makes before the rewrite itself.
func c18Rehearse(dir, file, pw, op, call, set string) (int, error) {
	tmp, err := os.MkdirTemp("", "c18r")
	if err != nil {
		return 0, err
	}
	defer os.RemoveAll(tmp)
	copied := filepath.Join(tmp, filepath.Base(file))
	if b, err := os.ReadFile(file); err == nil {
		if err := os.WriteFile(copied, b, 0o400); err != nil {
			return 0, err
		}
	}
	exe, err := os.Readlink("/proc/self/exe")
	if err != nil {
		return 0, err
	}
	trace := filepath.Join(tmp, "trace")
	cmd := exec.Command("strace", "-f", "-qq", "-o", trace, "-e", "trace="+set, exe, "confwrite", copied, pw, "-1", op)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	if out, err := cmd.CombinedOutput(); err != nil && !strings.Contains(string(out), "ready") {
		return 0, fmt.Errorf("rehearsal: %v: %s", err, out)
	}
	tr, err := os.ReadFile(trace)
	if err != nil {
		return 0, err
	}
	names := strings.Split(call, ",")
	before, pid := 0, ""
	for _, l := range strings.Split(string(tr), "\n") {
		f := strings.Fields(l)
		if len(f) < 2 {
			continue
		}
		if pid == "" {
			pid = f[0] // the main thread, which does the rewrite
		}
		name, _, ok := strings.Cut(f[1], "(")
		if f[0] != pid || !ok {
			continue
		}
		if slices.Contains(names, name) {
			before++
		}
		if strings.Contains(l, `"ready\n"`) {
			return before, nil
		}
	}
	return 0, fmt.Errorf("rehearsal: no rewrite in the trace")
}

var straceOnce sync.Once
var straceOK bool

func haveStrace() bool {
	straceOnce.Do(func() {
		out, err := exec.Command("strace", "-o", "/dev/null", "-e", "trace=none", "/bin/true").CombinedOutput()
		straceOK = err == nil
		_ = out
	})
	return straceOK
}

func c18Exec(c c18Case, rec *Rec) error {
	dir, err := os.MkdirTemp("", "c18")
	if err != nil {
		return inconclusive("%v", err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "gocryptfs.conf")
	pws := []string{"pw-start"}
	master := prng(42, 32)
	op := "change"
	pre := []byte(nil)
	if c.Fresh > 0 {
		op = "create"
		switch c.Fresh {
		case 2:
			pre = []byte{}
		case 3:
			v := NewRefVol(VolFlags{HKDF: true, Raw64: true}, c.Seed, []byte("other"))
			pre, _ = json.MarshalIndent(v.Conf(c.Seed), "", "\t")
		}
		if pre != nil {
			if err := os.WriteFile(file, pre, 0o400); err != nil {
				return inconclusive("%v", err)
			}
		}
		rec.Label("new volume")
	} else
	// start from a configuration with a known key
	if err := configfile.Create(file, []byte(pws[0]), false, 10, "harness", c.Seed%2 == 0, false, nil); err != nil {
		return fmt.Errorf("Create: %v", err)
	}
	if c.Fresh == 0 {
		cf, err := configfile.Load(file)
		if err != nil {
			return fmt.Errorf("Load: %v", err)
		}
		cf.EncryptKey(append([]byte{}, master...), []byte(pws[0]), 10)
		if err := cf.WriteFile(); err != nil {
			return fmt.Errorf("WriteFile: %v", err)
		}
	}
	// state returns which password the file unlocks with, or why it is broken
	state := func() (int, []byte, error) {
		b, err := os.ReadFile(file)
		if c.Fresh > 0 && ((pre == nil && os.IsNotExist(err)) || (pre != nil && err == nil && bytes.Equal(b, pre))) {
			return 0, b, nil // as before the first write
		}
		if err != nil {
			return 0, nil, fmt.Errorf("the configuration file cannot be read: %v", err)
		}
		st, err := os.Lstat(file)
		if err != nil || !st.Mode().IsRegular() || st.Mode().Perm() != 0o400 {
			return 0, nil, fmt.Errorf("the configuration file has mode %v (%v), want 0400", st.Mode(), err)
		}
		var rc RefConf
		if err := json.Unmarshal(b, &rc); err != nil || !bytes.HasSuffix(b, []byte("}\n")) {
			return 0, nil, fmt.Errorf("the configuration file is torn (%d bytes, %v): %q", len(b), err, clip(string(b), 300))
		}
		for i := len(pws) - 1; i >= 0; i-- {
			if k, ok := refUnlock(rc, []byte(pws[i])); ok {
				if !bytes.Equal(k, master) && c.Fresh == 0 {
					return 0, nil, fmt.Errorf("the configuration unlocks another key")
				}
				return i, b, nil
			}
		}
		return 0, nil, fmt.Errorf("the configuration unlocks with no password used so far")
	}
	helper := func(pw string, limit int, wrap ...string) *exec.Cmd {
		args := append(append([]string{}, wrap...), "/proc/self/exe", "confwrite", file, pw, strconv.Itoa(limit), op)
		if len(wrap) > 0 {
			exe, _ := os.Readlink("/proc/self/exe")
			args[len(wrap)] = exe
		}
		cmd := exec.Command(args[0], args[1:]...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		return cmd
	}
	cur, curBytes, err := state()
	if err != nil {
		return err
	}
	next := func() string {
		pws = append(pws, fmt.Sprintf("pw-%d-%d", len(pws), c.Seed))
		return pws[len(pws)-1]
	}
	// after: what must hold once the writer of password index w has ended
	after := func(what string, w int, code int, killed bool) error {
		got, b, err := state()
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		switch {
		case got != cur && got != w:
			return fmt.Errorf("%s: the file holds version %d, neither the old %d nor the new %d", what, got, cur, w)
		case got == cur && !bytes.Equal(b, curBytes):
			return fmt.Errorf("%s: the old configuration was altered", what)
		case !killed && code == 0 && got != w:
			return fmt.Errorf("%s: the writer reported success, but the old configuration is in place", what)
		case !killed && code == 4 && got != cur:
			return fmt.Errorf("%s: the writer reported an error, but the new configuration is in place", what)
		}
		cur, curBytes = got, b
		return nil
	}
	retry := func(what string) error {
		pw := next()
		out, err := helper(pw, -1).CombinedOutput()
		if err != nil {
			return fmt.Errorf("%s: a write after the failed one does not succeed: %v %s", what, err, out)
		}
		return after(what+", repeated", len(pws)-1, 0, false)
	}
	runCode := func(cmd *exec.Cmd) (int, bool, []byte, error) {
		out, err := cmd.CombinedOutput()
		st := cmd.ProcessState
		if st == nil {
			return 0, false, out, inconclusive("helper: %v", err)
		}
		ws := st.Sys().(syscall.WaitStatus)
		return st.ExitCode(), ws.Signaled() || st.ExitCode() == 137, out, nil
	}
	switch c.Kind {
	case "seq":
		for i := 0; i < c.Steps; i++ {
			pw := next()
			code, _, out, err := runCode(helper(pw, -1))
			if err != nil {
				return err
			}
			if code != 0 {
				return fmt.Errorf("write %d failed: code %d %s", i, code, out)
			}
			if err := after(fmt.Sprintf("write %d", i), len(pws)-1, 0, false); err != nil {
				return err
			}
		}
		if ls, _ := os.ReadDir(dir); len(ls) != 1 {
			return fmt.Errorf("after %d successful writes the directory holds %d files", c.Steps, len(ls))
		}
	case "inject":
		if !haveStrace() {
			rec.Label("strace unavailable")
			return nil
		}
		call := c.Call
		set := "openat,write,pwrite64,close,fsync,fdatasync,rename,renameat,renameat2,fchmod,fchmodat,ftruncate,linkat,unlinkat"
		if call == "any" {
			call = set
		} else if call == "fsync" {
			call = "fsync,fdatasync"
		} else if strings.HasPrefix(call, "rename") {
			call = "rename,renameat,renameat2"
		}
		pw := next()
		trace := filepath.Join(dir, "trace")
		nth := c.Nth
		if c.Aim { // count from the start of the rewrite, which a rehearsal finds
			n, err := c18Rehearse(dir, file, pw, op, call, set)
			if err != nil {
				return inconclusive("%v", err)
			}
			nth += n
			rec.Label("aimed at the rewrite")
		}
		cmd := helper(pw, -1, "strace", "-f", "-qq", "-o", trace, "-e", "trace="+set, "-e", fmt.Sprintf("inject=%s:%s:when=%d", call, c.Err, nth))
		code, killed, out, err := runCode(cmd)
		if err != nil {
			return err
		}
		tr, _ := os.ReadFile(trace)
		_ = os.Remove(trace)
		injected := bytes.Contains(tr, []byte("(INJECTED)")) || killed
		wrote := strings.Contains(string(out), "ready")
		if injected {
			rec.Label("injected " + strings.Split(c.Err, "=")[0])
			if wrote {
				rec.NonTrivial()
				rec.Label("injected in the write: " + c.Call)
			}
		}
		what := fmt.Sprintf("%s of %s #%d", c.Err, c.Call, c.Nth)
		if !killed && code != 0 && code != 4 && wrote {
			// a Go runtime that cannot go on is not our business
			killed = true
		}
		if err := after(what, len(pws)-1, code, killed || code > 4 || (code != 0 && code != 4)); err != nil {
			return err
		}
		// an injected failure of close() or unlink() itself may leave the
		// writer's temporary file; after any other reported failure a new
		// write must go through
		if !killed && code == 4 && !strings.Contains(c.Call, "any") {
			if err := retry(what); err != nil {
				return err
			}
		}
	case "kill":
		pw := next()
		cmd := helper(pw, -1)
		stdout, err := cmd.StdoutPipe()
		if err != nil {
			return inconclusive("%v", err)
		}
		if err := cmd.Start(); err != nil {
			return inconclusive("%v", err)
		}
		buf := make([]byte, 6)
		_, _ = stdout.Read(buf)
		time.Sleep(time.Duration(c.Delay) * time.Microsecond)
		_ = cmd.Process.Kill()
		_ = cmd.Wait()
		rec.NonTrivial()
		killed := cmd.ProcessState.ExitCode() != 0
		if killed {
			rec.Label("killed in time")
		}
		if err := after("writer killed", len(pws)-1, cmd.ProcessState.ExitCode(), killed); err != nil {
			return err
		}
	case "fsize":
		pw := next()
		code, killed, out, err := runCode(helper(pw, c.Limit))
		if err != nil {
			return err
		}
		what := fmt.Sprintf("file size limited to %d", c.Limit)
		if code != 0 && code != 4 {
			return inconclusive("helper ended with %d: %s", code, out)
		}
		if err := after(what, len(pws)-1, code, killed); err != nil {
			return err
		}
		rec.NonTrivial()
		if code == 4 {
			rec.Label("write cut short")
			if err := retry(what); err != nil {
				return err
			}
		} else {
			rec.Label("write fits the limit")
		}
	case "readers":
		stop := make(chan struct{})
		var bad atomic.Value
		var wg sync.WaitGroup
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					b, err := os.ReadFile(file)
					if err != nil {
						bad.Store(fmt.Sprintf("a reader got %v", err))
						return
					}
					if !json.Valid(b) || !bytes.HasSuffix(b, []byte("}\n")) {
						bad.Store(fmt.Sprintf("a reader saw a torn file of %d bytes", len(b)))
						return
					}
					if _, err := configfile.Load(file); err != nil {
						bad.Store(fmt.Sprintf("a reader's Load failed: %v", err))
						return
					}
				}
			}()
		}
		var werr error
		for i := 0; i < 10*c.Steps && werr == nil; i++ {
			cf, err := configfile.Load(file)
			if err != nil {
				werr = fmt.Errorf("Load: %v", err)
				break
			}
			cf.Creator = strings.Repeat("x", (i*977)%5000)
			if err := cf.WriteFile(); err != nil {
				werr = fmt.Errorf("WriteFile: %v", err)
			}
		}
		close(stop)
		wg.Wait()
		if werr != nil {
			return werr
		}
		if b := bad.Load(); b != nil {
			return fmt.Errorf("while the file is being replaced: %s", b)
		}
		if _, _, err := state(); err != nil {
			return err
		}
		rec.NonTrivial()
	case "writers":
		var wg sync.WaitGroup
		n := 2 + c.Steps
		okc := make([]bool, n)
		var first = len(pws)
		for i := 0; i < n; i++ {
			next()
		}
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				okc[i] = helper(pws[first+i], -1).Run() == nil
			}()
		}
		wg.Wait()
		got, b, err := state()
		if err != nil {
			return fmt.Errorf("%d writers at once: %v", n, err)
		}
		anyOK := false
		for _, o := range okc {
			anyOK = anyOK || o
		}
		if !anyOK {
			return fmt.Errorf("%d writers at once: none succeeded", n)
		}
		if got < first || !okc[got-first] {
			return fmt.Errorf("%d writers at once: the file holds version %d, whose writer did not report success (%v)", n, got, okc)
		}
		cur, curBytes = got, b
		rec.NonTrivial()
		if err := retry("after concurrent writers"); err != nil {
			return err
		}
	case "staletmp":
		// whatever lies around beside the file, the configuration stays whole
		for _, nme := range []string{"gocryptfs.conf.tmp"} {
			if err := os.WriteFile(filepath.Join(dir, nme), []byte("not mine"), 0o600); err != nil {
				return inconclusive("%v", err)
			}
		}
		pw := next()
		code, killed, _, err := runCode(helper(pw, -1))
		if err != nil {
			return err
		}
		if err := after("a stale temporary file", len(pws)-1, code, killed); err != nil {
			return err
		}
		rec.NonTrivial()
	case "order":
		if !haveStrace() {
			rec.Label("strace unavailable")
			return nil
		}
		pw := next()
		trace := filepath.Join(dir, "trace")
		cmd := helper(pw, -1, "strace", "-f", "-qq", "-y", "-o", trace, "-e", "trace=open,openat,creat,write,pwrite64,fsync,fdatasync,sync,syncfs,rename,renameat,renameat2,ftruncate,truncate")
		code, killed, out, err := runCode(cmd)
		if err != nil {
			return err
		}
		tr, _ := os.ReadFile(trace)
		_ = os.Remove(trace)
		if code != 0 || killed {
			return fmt.Errorf("write failed under trace: code %d %s", code, out)
		}
		if err := after("write", len(pws)-1, 0, false); err != nil {
			return err
		}
		if err := flushOrder(string(tr), dir, file); err != nil {
			return err
		}
		rec.NonTrivial()
		rec.Label("flush before rename observed")
	}
	return nil
}

var (
	reWrite  = regexp.MustCompile(`\b(write|pwrite64)\(\d+<([^>]*)>.*= \d+`)
	reSync   = regexp.MustCompile(`\b(fsync|fdatasync)\(\d+<([^>]*)>\)\s*= 0`)
	reAll    = regexp.MustCompile(`\b(sync\(\)|syncfs\()`)
	reRename = regexp.MustCompile(`\brename(?:at2?)?\((?:[^,"]*, )?"([^"]*)", (?:[^,"]*, )?"([^"]*)".*= 0`)
	reTrunc  = regexp.MustCompile(`\b(?:open|openat|creat)\((?:[^,"]*, )?"([^"]*)", ([A-Z_|]*)`)
)

// flushOrder: the new contents reach the disk before they take the old file's
// place, and the old file is never opened for writing.
func flushOrder(tr, dir, file string) error {
	dirty := map[string]bool{}
	renamed := false
	for _, l := range strings.Split(tr, "\n") {
		if m := reTrunc.FindStringSubmatch(l); m != nil && m[1] == file && (strings.Contains(m[2], "O_WRONLY") || strings.Contains(m[2], "O_RDWR") || strings.Contains(m[2], "O_TRUNC")) {
			return fmt.Errorf("the configuration file in place was opened for writing: %s", l)
		}
		if m := reWrite.FindStringSubmatch(l); m != nil && strings.HasPrefix(m[2], dir) {
			dirty[m[2]] = true
		}
		if m := reSync.FindStringSubmatch(l); m != nil {
			delete(dirty, m[2])
		}
		if reAll.MatchString(l) {
			dirty = map[string]bool{}
		}
		if m := reRename.FindStringSubmatch(l); m != nil && m[2] == file {
			renamed = true
			if dirty[m[1]] {
				return fmt.Errorf("the new configuration replaced the old one before it was flushed to disk: %s", l)
			}
		}
	}
	if !renamed {
		return nil // replaced in some other way, judged by its effects only
	}
	return nil
}
