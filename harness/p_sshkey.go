//go:build all || c19

package main

// C19: the program's configuration and its private key are loaded exactly as
// given, asking for passphrases only as needed.

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/flawedmatrix/gocryptsftp/config"
	"golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
)

type c19Case struct {
	Kind string `json:"kind"` // key, config, validate
	// key
	Key     string   `json:"key,omitempty"`    // rsa, ec256, ec384, ec521, ed25519
	Format  string   `json:"format,omitempty"` // pkcs1/ec (traditional), pkcs8, openssh
	Cipher  int      `json:"cipher,omitempty"` // 0 = not encrypted, else x509.PEMCipher
	Pw      []byte   `json:"pw,omitempty"`
	Tries   [][]byte `json:"tries,omitempty"` // what is typed
	Notty   bool     `json:"notty,omitempty"`
	Before  string   `json:"before,omitempty"` // text before and after the block
	After   string   `json:"after,omitempty"`
	Damage  string   `json:"damage,omitempty"`
	A       int      `json:"a,omitempty"`
	VolPw   []byte   `json:"volpw,omitempty"`
	AskVol  bool     `json:"askvol,omitempty"`
	Root    string   `json:"root,omitempty"`
	Seed    uint64   `json:"seed,omitempty"`
	Fields  []string `json:"fields,omitempty"` // values of the seven fields
	Present []bool   `json:"present,omitempty"`
	Extra   bool     `json:"extra,omitempty"`
	Paths   []int    `json:"paths,omitempty"` // known hosts, key: 0 file, 1 missing, 2 directory, 3 empty string
}

var c19Damages = []string{"empty", "missing", "text", "cert", "truncate", "flip", "badtype", "noend", "b64", "dek", "dekalg", "dir", "binary", "pub", "der", "nl"}

var c19Names = []string{"ProxyUser", "ProxyPassword", "KnownHostsPath", "Addr", "FileRoot", "User", "PrivateKeyPath"}

func init() {
	modes["sshkey"] = c19Helper
	reg(Prop{
		ID: "C19", Quick: 6000, Thorough: 300000,
		Rule:  "a case is a private key (RSA, ECDSA on three curves, Ed25519) in every supported file format, plain or encrypted with one of the five PEM ciphers, or a damaged or foreign file, together with up to four passphrases typed at a pseudo terminal (or nobody typing, or no terminal); or a generated program configuration in JSON, complete or not; non-trivial = a passphrase was asked for, or a file or configuration had to be refused; oracle: which passphrases open the key (x509), the number of prompts, the public key and a signature, the field values",
		Setup: "typed passphrases contain no terminal control characters; a wrong passphrase that by chance unpads (1 in 256) may end the dialogue",
	}, func(t *rapid.T, tier Tier) c19Case {
		c := c19Case{Kind: rapid.SampledFrom([]string{"key", "key", "key", "config", "validate"}).Draw(t, "kind")}
		switch c.Kind {
		case "key":
			c.Key = rapid.SampledFrom([]string{"rsa", "ec256", "ec384", "ec521", "ed25519"}).Draw(t, "key")
			c.Format = rapid.SampledFrom([]string{"trad", "trad", "pkcs8", "openssh"}).Draw(t, "format")
			if c.Key == "ed25519" && c.Format == "trad" {
				c.Format = "openssh"
			}
			if c.Format == "openssh" && c.Key != "ed25519" {
				c.Key = "rsa"
			}
			if c.Format == "trad" && rapid.IntRange(0, 3).Draw(t, "enc") > 0 {
				c.Cipher = rapid.IntRange(1, 5).Draw(t, "cipher")
				c.Pw = genTyped(t, "pw")
			}
			for i, n := 0, rapid.IntRange(0, 4).Draw(t, "ntries"); i < n; i++ {
				l := fmt.Sprint("try", i)
				switch k := rapid.IntRange(0, 9).Draw(t, l); {
				case k < 4:
					c.Tries = append(c.Tries, append([]byte{}, c.Pw...))
				case k < 6 && len(c.Pw) > 0:
					p := append([]byte{}, c.Pw...)
					switch k2 := rapid.IntRange(0, 3).Draw(t, l+"/near"); k2 {
					case 0:
						p = p[:len(p)-1]
					case 1:
						p = append(p, 'x')
					case 2:
						p = bytes.ToUpper(p)
					case 3:
						p = append([]byte(" "), p...)
					}
					c.Tries = append(c.Tries, p)
				case k == 6:
					c.Tries = append(c.Tries, []byte{})
				default:
					c.Tries = append(c.Tries, genTyped(t, l+"/pw"))
				}
			}
			c.Notty = rapid.IntRange(0, 14).Draw(t, "notty") == 0
			if rapid.IntRange(0, 3).Draw(t, "dmg") == 0 {
				c.Damage = rapid.SampledFrom(c19Damages).Draw(t, "damage")
				c.A = rapid.IntRange(0, 5000).Draw(t, "a")
			}
			if rapid.IntRange(0, 3).Draw(t, "sur") == 0 {
				c.Before = rapid.SampledFrom([]string{"", "\n", "my key\n", "Bag Attributes\n  a: b\n\n", "ENCRYPTED\n", "Proc-Type: 4,ENCRYPTED\n", strings.Repeat("a comment line\n", 300), strings.Repeat("a comment line\n", 5000)}).Draw(t, "before")
				c.After = rapid.SampledFrom([]string{"", "\n", "trailing\n", "ENCRYPTED\n", strings.Repeat("a comment line\n", 5000)}).Draw(t, "after")
			}
			c.Seed = rapid.Uint64().Draw(t, "seed")
			c.AskVol = rapid.Bool().Draw(t, "askvol")
			if c.AskVol {
				c.VolPw = genTyped(t, "volpw")
				c.Root = rapid.SampledFrom([]string{"/v", "/some root/with space", "/%s", "rel"}).Draw(t, "root")
			}
		default:
			for i := 0; i < 7; i++ {
				l := fmt.Sprint("f", i)
				c.Fields = append(c.Fields, rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"", "x", "remote.addr.com:22", "/a b/ü", "\u0000", "pass\"word\\", " ", "0", "false", " lead", "trail ", "a\tb", "${HOME}", "$HOME", "%s%d", "~/x", "//x", "<&>", "\u2028", "\U0001f98a", strings.Repeat("long", 3000)})).Draw(t, l))
				c.Present = append(c.Present, rapid.IntRange(0, 6).Draw(t, l+"/p") > 0)
			}
			if rapid.Bool().Draw(t, "complete") {
				// complete except for at most one field
				hole := rapid.IntRange(-2, 6).Draw(t, "hole")
				for i := range c.Fields {
					if c.Fields[i] == "" {
						c.Fields[i] = "v"
					}
					c.Present[i] = true
					if i == hole {
						c.Fields[i] = ""
					}
				}
			}
			c.Extra = rapid.Bool().Draw(t, "extra")
			c.Paths = []int{rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3}).Draw(t, "p0"), rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3}).Draw(t, "p1")}
			if c.Kind == "config" {
				c.Damage = rapid.SampledFrom([]string{"", "", "", "truncate", "empty", "missing", "array", "type", "tail", "nul", "dir"}).Draw(t, "damage")
				c.A = rapid.IntRange(0, 5000).Draw(t, "a")
			}
		}
		return c
	}, c19Exec)
}

var c19Keys sync.Map

func c19Key(kind string) (crypto.Signer, error) {
	if k, ok := c19Keys.Load(kind); ok {
		return k.(crypto.Signer), nil
	}
	var k crypto.Signer
	var err error
	switch kind {
	case "rsa":
		k, err = rsa.GenerateKey(rand.Reader, 2048)
	case "ec256":
		k, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	case "ec384":
		k, err = ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
	case "ec521":
		k, err = ecdsa.GenerateKey(elliptic.P521(), rand.Reader)
	case "ed25519":
		k = ed25519.NewKeyFromSeed(prng(4711, 32))
	}
	if err != nil {
		return nil, err
	}
	c19Keys.Store(kind, k)
	return k, nil
}

// opensshKey encodes a key in OpenSSH's own format, unencrypted.
func opensshKey(k crypto.Signer, pub ssh.PublicKey) []byte {
	var check uint32 = 0x01020304
	var priv []byte
	switch k := k.(type) {
	case ed25519.PrivateKey:
		priv = ssh.Marshal(struct {
			C1, C2   uint32
			T        string
			Pub, Prv []byte
			Comment  string
		}{check, check, "ssh-ed25519", []byte(k.Public().(ed25519.PublicKey)), []byte(k), "comment"})
	case *rsa.PrivateKey:
		priv = ssh.Marshal(struct {
			C1, C2           uint32
			T                string
			N, E, D, I, P, Q []byte
			Comment          string
		}{check, check, "ssh-rsa", mpint(k.N.Bytes()), mpint(bigEnd(k.E)), mpint(k.D.Bytes()), mpint(k.Precomputed.Qinv.Bytes()), mpint(k.Primes[0].Bytes()), mpint(k.Primes[1].Bytes()), "comment"})
	}
	for i := 1; len(priv)%8 != 0; i++ {
		priv = append(priv, byte(i))
	}
	body := append([]byte("openssh-key-v1\x00"), ssh.Marshal(struct {
		Cipher, Kdf, Opts string
		N                 uint32
		Pub, Priv         []byte
	}{"none", "none", "", 1, pub.Marshal(), priv})...)
	return pem.EncodeToMemory(&pem.Block{Type: "OPENSSH PRIVATE KEY", Bytes: body})
}

func mpint(b []byte) []byte {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	if len(b) > 0 && b[0]&0x80 != 0 {
		b = append([]byte{0}, b...)
	}
	return b
}

func bigEnd(e int) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(e))
	return bytes.TrimLeft(b[:], "\x00")
}

// c19Helper CONFIG ASKVOL: what main does before it connects.
func c19Helper(args []string) int {
	cfg, err := config.LoadConfig(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, "RESULT config", err)
		return 0
	}
	s, err := cfg.LoadSSHKey()
	if err != nil {
		if s != nil {
			fmt.Fprintln(os.Stderr, "RESULT both")
		}
		fmt.Fprintln(os.Stderr, "RESULT error", strings.ReplaceAll(err.Error(), "\n", " "))
	} else if s == nil {
		fmt.Fprintln(os.Stderr, "RESULT neither")
	} else {
		msg := []byte("to be signed")
		func() {
			defer func() {
				if recover() != nil {
					fmt.Fprintln(os.Stderr, "RESULT badsig")
				}
			}()
			sig, err := s.Sign(rand.Reader, msg)
			if err != nil || s.PublicKey().Verify(msg, sig) != nil {
				fmt.Fprintln(os.Stderr, "RESULT badsig")
			}
		}()
		fmt.Fprintln(os.Stderr, "RESULT key", base64.StdEncoding.EncodeToString(s.PublicKey().Marshal()))
	}
	if args[1] == "true" {
		// the two dialogues are kept apart, so that each prompt is attributable
		for i := 0; i < 60000; i++ {
			if _, err := os.Stat(args[0] + ".go"); err == nil {
				break
			}
			time.Sleep(time.Millisecond)
		}
		p, err := cfg.GetDecrpytionPassphrase()
		if err != nil {
			fmt.Fprintln(os.Stderr, "RESULT volerr", err)
		} else {
			fmt.Fprintln(os.Stderr, "RESULT volpw", hex.EncodeToString(p))
		}
	}
	fmt.Fprintln(os.Stderr, "RESULT end")
	return 0
}

func results(s string) map[string]string {
	m := map[string]string{}
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			w := strings.SplitN(l[7:], " ", 2)
			w = append(w, "")
			m[w[0]] = w[1]
		}
	}
	return m
}

func c19Exec(c c19Case, rec *Rec) error {
	dir, err := os.MkdirTemp("", "c19")
	if err != nil {
		return inconclusive("%v", err)
	}
	defer os.RemoveAll(dir)
	switch c.Kind {
	case "key":
		return c19KeyCase(c, dir, rec)
	case "config":
		return c19Config(c, dir, rec)
	}
	return c19Validate(c, dir, rec)
}

func c19KeyCase(c c19Case, dir string, rec *Rec) error {
	k, err := c19Key(c.Key)
	if err != nil {
		return inconclusive("%v", err)
	}
	pub, err := ssh.NewPublicKey(k.Public())
	if err != nil {
		return inconclusive("%v", err)
	}
	var b *pem.Block
	switch c.Format {
	case "trad":
		if r, ok := k.(*rsa.PrivateKey); ok {
			b = &pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(r)}
		} else {
			der, err := x509.MarshalECPrivateKey(k.(*ecdsa.PrivateKey))
			if err != nil {
				return inconclusive("%v", err)
			}
			b = &pem.Block{Type: "EC PRIVATE KEY", Bytes: der}
		}
	case "pkcs8":
		der, err := x509.MarshalPKCS8PrivateKey(k)
		if err != nil {
			return inconclusive("%v", err)
		}
		b = &pem.Block{Type: "PRIVATE KEY", Bytes: der}
	case "openssh":
		b, _ = pem.Decode(opensshKey(k, pub))
	}
	if c.Cipher > 0 {
		if b, err = x509.EncryptPEMBlock(&seqReader{seed: c.Seed}, b.Type, b.Bytes, c.Pw, x509.PEMCipher(c.Cipher)); err != nil {
			return inconclusive("%v", err)
		}
	}
	switch c.Damage {
	case "truncate":
		b.Bytes = b.Bytes[:c.A%len(b.Bytes)]
	case "flip":
		b.Bytes[c.A%len(b.Bytes)] ^= 1 << (c.A % 8)
	case "badtype":
		b.Type = []string{"ENCRYPTED PRIVATE KEY", "PGP PRIVATE KEY", "PUBLIC KEY", "FOO"}[c.A%4]
	case "dek":
		if b.Headers == nil {
			b.Headers = map[string]string{}
		}
		b.Headers["Proc-Type"] = "4,ENCRYPTED"
		b.Headers["DEK-Info"] = []string{"AES-128-CBC", "AES-128-CBC,zz", "AES-128-CBC,00", "", ","}[c.A%5]
	case "dekalg":
		if b.Headers == nil {
			b.Headers = map[string]string{}
		}
		b.Headers["Proc-Type"] = "4,ENCRYPTED"
		b.Headers["DEK-Info"] = "ROT13,00112233445566778899AABBCCDDEEFF"
	}
	txt := pem.EncodeToMemory(b)
	txt = append(append([]byte(c.Before), txt...), []byte(c.After)...)
	path := filepath.Join(dir, "id key")
	switch c.Damage {
	case "empty":
		txt = nil
	case "text":
		txt = []byte("this is not a key\n")
	case "nl":
		txt = []byte("\n")
	case "cert":
		txt = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: prng(c.Seed, 300)})
	case "noend":
		txt = bytes.Replace(txt, []byte("-----END"), []byte("----END"), 1)
	case "b64":
		i := len(txt) / 2
		txt[i] = '*'
	case "binary":
		txt = prng(c.Seed, 1+c.A%3000)
	case "pub":
		txt = ssh.MarshalAuthorizedKey(pub)
	case "der":
		txt = b.Bytes
	}
	switch c.Damage {
	case "missing":
	case "dir":
		err = os.Mkdir(path, 0o700)
	default:
		err = os.WriteFile(path, txt, 0o600)
	}
	if err != nil {
		return inconclusive("%v", err)
	}
	root := c.Root
	if root == "" {
		root = "/v"
	}
	cfgFile := filepath.Join(dir, "cfg.json")
	js, _ := json.Marshal(map[string]any{"ProxyUser": "u", "ProxyPassword": "p", "KnownHostsPath": "/kh", "Remote": map[string]string{"Addr": "a:1", "FileRoot": root, "User": "ru", "PrivateKeyPath": path}})
	if err := os.WriteFile(cfgFile, js, 0o600); err != nil {
		return inconclusive("%v", err)
	}

	// what the file holds, by the standard library
	readable := c.Damage != "missing" && c.Damage != "dir"
	var blk *pem.Block
	if readable {
		blk, _ = pem.Decode(txt)
	}
	//lint:ignore SA1019 the format under test
	encrypted := blk != nil && x509.IsEncryptedPEMBlock(blk)
	// outcomes: "key" (with pub), "error"; free = either, with at most 3 prompts
	want, prompts, free := "error", 0, false
	var wantPub []byte
	if !encrypted {
		if readable {
			if s, err := ssh.ParsePrivateKey(txt); err == nil {
				want, wantPub = "key", s.PublicKey().Marshal()
				if c.Damage == "" && !bytes.Equal(wantPub, pub.Marshal()) {
					return inconclusive("the encoded key is another one")
				}
			} else if c.Damage == "" {
				return inconclusive("%s/%s: the library cannot read the key: %v", c.Key, c.Format, err)
			}
		}
	} else {
		for i := 0; i < 3 && want == "error"; i++ {
			prompts++
			if c.Notty || i >= len(c.Tries) {
				break // nobody types
			}
			//lint:ignore SA1019 the format under test
			der, err := x509.DecryptPEMBlock(blk, c.Tries[i])
			if err == x509.IncorrectPasswordError {
				continue
			}
			if err != nil {
				break // unusable file: asking again cannot help
			}
			plain := pem.EncodeToMemory(&pem.Block{Type: blk.Type, Bytes: der})
			s, perr := ssh.ParsePrivateKey(plain)
			if perr == nil && blk.Type != "PRIVATE KEY" {
				want, wantPub = "key", s.PublicKey().Marshal()
				break
			}
			if c.Damage == "" && bytes.Equal(c.Tries[i], c.Pw) {
				return inconclusive("the library cannot read the key: %v", perr)
			}
			free = true // garbage that happened to be padded correctly
			break
		}
	}
	if c.Damage == "" && want == "error" && !encrypted && readable {
		return inconclusive("undamaged key refused by the oracle")
	}

	g, err := startProg(!c.Notty, nil, "/proc/self/exe", "sshkey", cfgFile, fmt.Sprint(c.AskVol))
	if err != nil {
		return err
	}
	defer g.stop()
	keyDone := func() bool {
		e := g.err.String()
		return strings.Contains(e, "RESULT key") || strings.Contains(e, "RESULT error") || strings.Contains(e, "RESULT config") || strings.Contains(e, "RESULT neither") || strings.Contains(e, "RESULT end")
	}
	var typed [][]byte
	asked := 0
	goOn := func() error {
		if err := os.WriteFile(cfgFile+".go", nil, 0o600); err != nil {
			return inconclusive("%v", err)
		}
		return nil
	}
	if c.Notty {
		if err := goOn(); err != nil {
			return err
		}
	}
	if !c.Notty {
		for !keyDone() {
			p, err := g.waitPrompt(60*time.Second, keyDone)
			if err != nil {
				return err
			}
			if !p || keyDone() {
				break
			}
			asked++
			if asked > 6 {
				return fmt.Errorf("asked %d times for the passphrase", asked)
			}
			var in []byte
			if asked <= len(c.Tries) {
				in = append(append([]byte{}, c.Tries[asked-1]...), '\n')
				typed = append(typed, c.Tries[asked-1])
			} else {
				// the user walks away: the program must be waiting for the
				// passphrase that the oracle says is needed
				if free || asked <= prompts && want == "error" {
					rec.NonTrivial()
					rec.Label("walked away")
					return nil
				}
				return fmt.Errorf("%s key, %s format, cipher %d, damage %q, typed %q: asked for a passphrase %d times, want %d", c.Key, c.Format, c.Cipher, c.Damage, c.Tries, asked, prompts)
			}
			if err := g.answer(in); err != nil {
				return err
			}
		}
		if err := goOn(); err != nil {
			return err
		}
		if c.AskVol && g.alive() {
			p, err := g.waitPrompt(60*time.Second, nil)
			if err != nil {
				return err
			}
			if p {
				if !strings.Contains(g.out.String(), root) {
					return fmt.Errorf("the prompt for the volume's passphrase does not name the volume: %q", g.out.String())
				}
				if err := g.answer(append(append([]byte{}, c.VolPw...), '\n')); err != nil {
					return err
				}
				typed = append(typed, c.VolPw)
			}
		}
	}
	select {
	case <-g.done:
	case <-time.After(60 * time.Second):
		return fmt.Errorf("loading the key does not end")
	}
	res := results(g.err.String())
	all := g.prompts()
	if code := g.cmd.ProcessState.ExitCode(); code != 0 || res == nil {
		return fmt.Errorf("loading the key (%s %s cipher %d, damage %q) crashed with code %d: %s", c.Key, c.Format, c.Cipher, c.Damage, code, firstPanic(g.err.String()))
	}
	if _, ok := res["end"]; !ok {
		return fmt.Errorf("loading ended early: %s", g.err.String())
	}
	for _, bad := range []string{"both", "neither", "badsig", "config"} {
		if v, ok := res[bad]; ok {
			if bad == "badsig" && c.Damage != "" && want == "key" {
				// the library, too, takes the damaged file for a key
				rec.Label("damaged, but a key")
				continue
			}
			return fmt.Errorf("loading the key gave %s %s", bad, v)
		}
	}
	got, gotPub := "error", []byte(nil)
	if v, ok := res["key"]; ok {
		got = "key"
		gotPub, _ = base64.StdEncoding.DecodeString(v)
	}
	desc := fmt.Sprintf("%s key, %s format, cipher %d, damage %q, typed %q", c.Key, c.Format, c.Cipher, c.Damage, c.Tries)
	if !free {
		if got != want {
			return fmt.Errorf("%s: %s (%s), want %s", desc, got, res["error"], want)
		}
		if want == "key" && !bytes.Equal(gotPub, wantPub) {
			return fmt.Errorf("%s: another key was loaded", desc)
		}
		keyPrompts := all
		if c.AskVol {
			keyPrompts--
		}
		if keyPrompts != prompts {
			return fmt.Errorf("%s: asked %d times for the passphrase, want %d", desc, keyPrompts, prompts)
		}
	} else if got == "key" && !bytes.Equal(gotPub, pub.Marshal()) {
		return fmt.Errorf("%s: another key was loaded", desc)
	} else if asked > 3 {
		return fmt.Errorf("%s: asked %d times for the passphrase", desc, asked)
	}
	if c.AskVol {
		if c.Notty {
			if _, ok := res["volerr"]; !ok {
				return fmt.Errorf("without a terminal the volume's passphrase came from somewhere: %v", res)
			}
		} else if res["volpw"] != hex.EncodeToString(c.VolPw) {
			return fmt.Errorf("typed %q for the volume, the program got %q %q", c.VolPw, res["volpw"], res["volerr"])
		}
		rec.Label("volume passphrase")
	}
	if !c.Notty {
		// what was typed must not appear anywhere
		for _, p := range typed {
			if len(p) >= 6 && (strings.Contains(g.tty.shown(), string(p)) || strings.Contains(g.out.String(), string(p)) && !strings.Contains(path+root, string(p))) {
				return fmt.Errorf("%s: the passphrase appeared on the terminal", desc)
			}
		}
	}
	if prompts > 0 {
		rec.NonTrivial()
		rec.Label(fmt.Sprintf("%d passphrase prompts", prompts))
	}
	if want == "error" {
		rec.NonTrivial()
		rec.Label("refused")
	} else {
		rec.Label("loaded " + c.Key + " " + c.Format)
	}
	return nil
}

type seqReader struct {
	seed uint64
	n    uint64
}

func (s *seqReader) Read(b []byte) (int, error) {
	s.n++
	copy(b, prng(s.seed+s.n, len(b)))
	return len(b), nil
}

func c19Config(c c19Case, dir string, rec *Rec) error {
	top, rem := map[string]any{}, map[string]any{}
	want := config.Config{}
	for i, v := range c.Fields {
		if !c.Present[i] {
			continue
		}
		v = strings.ToValidUTF8(v, "?")
		m := top
		if i >= 3 {
			m = rem
		}
		m[c19Names[i]] = v
		switch i {
		case 0:
			want.ProxyUser = v
		case 1:
			want.ProxyPassword = v
		case 2:
			want.KnownHostsPath = v
		case 3:
			want.Remote.Addr = v
		case 4:
			want.Remote.FileRoot = v
		case 5:
			want.Remote.User = v
		case 6:
			want.Remote.PrivateKeyPath = v
		}
	}
	if c.Extra {
		top["Comment"] = []int{1, 2}
		rem["Port"] = 22
	}
	top["Remote"] = rem
	if c.Damage == "type" {
		if c.A%2 == 0 {
			top["ProxyUser"] = 12
		} else {
			top["Remote"] = "host"
		}
	}
	js, err := json.MarshalIndent(top, "", " ")
	if err != nil {
		return inconclusive("%v", err)
	}
	bad := true
	switch c.Damage {
	case "truncate":
		js = js[:c.A%len(js)]
	case "empty":
		js = nil
	case "array":
		js = append(append([]byte("["), js...), ']')
	case "tail":
		js = append(js, []string{"}", "\x00", "\x00junk", "x", "]", ",", "{}", "\n\x00{\"ProxyUser\": \"x\"}", "\x1a", "null", "\"", "\n---\n"}[c.A%12]...)
	case "nul":
		i := c.A % (len(js) + 1)
		js = append(js[:i:i], append([]byte{0}, js[i:]...)...)
	case "type", "missing", "dir":
	default:
		bad = false
	}
	path := filepath.Join(dir, "config.json")
	switch c.Damage {
	case "missing":
	case "dir":
		err = os.Mkdir(path, 0o700)
	default:
		err = os.WriteFile(path, js, 0o600)
	}
	if err != nil {
		return inconclusive("%v", err)
	}
	got, err := config.LoadConfig(path)
	if bad {
		rec.NonTrivial()
		rec.Label("config refused")
		if err == nil {
			return fmt.Errorf("damaged configuration (%s) was accepted: %s", c.Damage, clip(string(js), 400))
		}
		if got != nil {
			return fmt.Errorf("a configuration came with the error %v", err)
		}
		return nil
	}
	if err != nil || got == nil {
		return fmt.Errorf("configuration %s refused: %v", clip(string(js), 600), err)
	}
	if !reflect.DeepEqual(*got, want) {
		return fmt.Errorf("configuration %s loaded as %+v", clip(string(js), 600), *got)
	}
	rec.Label("config loaded")
	return nil
}

func c19Validate(c c19Case, dir string, rec *Rec) error {
	cfg := config.Config{ProxyUser: c.Fields[0], ProxyPassword: c.Fields[1], Remote: config.RemoteConfig{Addr: c.Fields[3], FileRoot: c.Fields[4], User: c.Fields[5]}}
	ok := true
	for _, i := range []int{0, 1, 3, 4, 5} {
		if c.Fields[i] == "" {
			ok = false
		}
	}
	for i, k := range c.Paths {
		p := filepath.Join(dir, fmt.Sprint("file", i))
		switch k {
		case 0:
			if err := os.WriteFile(p, []byte("x"), 0o600); err != nil {
				return inconclusive("%v", err)
			}
		case 1:
			ok = false
		case 2:
			if err := os.Mkdir(p, 0o700); err != nil {
				return inconclusive("%v", err)
			}
			ok = false
		case 3:
			p, ok = "", false
		}
		if i == 0 {
			cfg.KnownHostsPath = p
		} else {
			cfg.Remote.PrivateKeyPath = p
		}
	}
	before := cfg
	err := cfg.Validate()
	if cfg != before {
		return fmt.Errorf("Validate changed the configuration")
	}
	if ok != (err == nil) {
		return fmt.Errorf("configuration %+v (paths %v): Validate says %v, complete: %v", cfg, c.Paths, err, ok)
	}
	if !ok {
		rec.NonTrivial()
		rec.Label("incomplete configuration refused")
	} else {
		rec.Label("complete configuration accepted")
	}
	return nil
}
