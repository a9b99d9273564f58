//go:build all || c25

package main

// C25: secrets stay inside the process.

import (
	"bytes"
	"crypto/rand"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/tlog"
	"golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
)

type c25Case struct {
	Kind   string  `json:"kind"` // serve, create
	Vol    VolSpec `json:"vol"`
	Trace  bool    `json:"trace,omitempty"`
	Dbg    bool    `json:"dbg,omitempty"`
	KeyPw  string  `json:"keypw,omitempty"` // the private key is encrypted
	Pass   string  `json:"pass,omitempty"`
	Wrong  string  `json:"wrong,omitempty"` // a near miss of one of the secrets
	Start  string  `json:"start,omitempty"` // ok, or how it fails
	Names  bool    `json:"names,omitempty"` // ask for names that do not exist
	Fault  int     `json:"fault,omitempty"` // every n-th remote request fails
	Logins int     `json:"logins,omitempty"`
	Damage bool    `json:"damage,omitempty"` // files on the remote are damaged
	Tty    bool    `json:"tty,omitempty"`    // create: standard output is a terminal
	InTty  bool    `json:"intty,omitempty"`  // create: standard input and error are a terminal
	Miss   int     `json:"miss,omitempty"`   // the missing value of an invalid configuration
	Siv    bool    `json:"siv,omitempty"`
	Quiet  bool    `json:"quiet,omitempty"`
	Plain  bool    `json:"plain,omitempty"`
}

func init() {
	modes["createvol"] = c25Create
	reg(Prop{
		ID: "C25", Quick: 2000, Thorough: 12000, NetNS: true, Recycle: 40, CaseTimeout: 5 * time.Minute,
		Rule:  "a case is a run of the program with generated passphrases, keys, names and contents: a start that succeeds or fails in one of ten ways (wrong passphrases, damaged or missing configuration, unreachable or unknown remote, no terminal), with debug output on or off, clients that read, ask for missing names and fail to log in, damaged files and failing requests at the remote, a third of them with every system call that writes recorded; or the creation of a volume with standard output being a terminal or not; non-trivial = passphrases were typed or a volume was created; oracle: none of the secrets (raw, hex or base64) occurs in any output, written buffer, file or request to the remote, every request to the remote names an existing encrypted object, no file is left behind",
		Setup: "secrets are at least ten characters long, so that they do not occur by chance; program memory, swap and core dumps are not covered",
	}, func(t *rapid.T, tier Tier) c25Case {
		secret := func(l string) string {
			return rapid.SampledFrom([]string{"", "pass phrase ", "ünï", "%s%d%v "}).Draw(t, l+"/pre") + rapid.StringMatching(`[a-zA-Z0-9!-/]{14,30}`).Draw(t, l)
		}
		v := genVol(t)
		v.Pw = []byte(secret("vpw"))
		name := func(t *rapid.T, l string) []byte {
			return []byte(rapid.SampledFrom([]string{"Geheim-", "secret name ", "%d%s-"}).Draw(t, l+"/p") + rapid.StringMatching(`[a-z0-9]{10,20}`).Draw(t, l))
		}
		v.Tree = genTree(t, treeOpt{depth: 2, breadth: 3, dirBias: 3, name: name, random: true, size: func(t *rapid.T, l string) int {
			if rapid.IntRange(0, 29).Draw(t, l+"/large") == 29 {
				return rapid.SampledFrom([]int{40000, 70000, 140000, 300000, 1100000}).Draw(t, l)
			}
			return rapid.SampledFrom([]int{0, 40, 4096, 5000, 8192, 12288}).Draw(t, l)
		}})
		c := c25Case{Kind: "serve", Vol: v, Pass: secret("pass")}
		if rapid.IntRange(0, 9).Draw(t, "kind") == 0 {
			c.Kind = "create"
			c.InTty = rapid.Bool().Draw(t, "intty")
			c.Tty, c.Siv, c.Quiet, c.Plain = rapid.Bool().Draw(t, "tty"), rapid.Bool().Draw(t, "siv"), rapid.IntRange(0, 3).Draw(t, "quiet") == 0, rapid.Bool().Draw(t, "plain")
			return c
		}
		c.Trace = rapid.IntRange(0, 2).Draw(t, "trace") == 0
		c.Dbg = rapid.Bool().Draw(t, "dbg")
		if rapid.Bool().Draw(t, "enc") {
			c.KeyPw = secret("keypw")
		}
		c.Start = rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "wrongpw", "wrongkeypw", "badconf", "noconf", "down", "hostkey", "midconf", "notty", "badjson", "invalid", "invalid", "badkey", "emptypw"}).Draw(t, "start")
		c.Miss = rapid.IntRange(0, 8).Draw(t, "miss")
		c.Names = rapid.Bool().Draw(t, "names")
		c.Damage = rapid.IntRange(0, 2).Draw(t, "damage") == 0
		c.Logins = rapid.SampledFrom([]int{0, 1, 2, 3, 0, 1, 2, 3, 7, 15}).Draw(t, "logins")
		if rapid.IntRange(0, 2).Draw(t, "flt") == 0 {
			c.Fault = rapid.IntRange(2, 9).Draw(t, "fault")
		}
		c.Wrong = rapid.SampledFrom([]string{"drop", "add", "case", "other"}).Draw(t, "wrong")
		return c
	}, c25Exec)
}

func (c c25Case) near(s string) string {
	switch c.Wrong {
	case "drop":
		return s[:len(s)-1]
	case "add":
		return s + "x"
	case "case":
		if u := strings.ToUpper(s); u != s {
			return u
		}
		return strings.ToLower(s) + "y"
	}
	return s[3:] + "qqqq"
}

type c25Secret struct {
	what  string
	forms [][]byte
}

func secretForms(what string, b []byte) c25Secret {
	s := c25Secret{what: what, forms: [][]byte{b}}
	if len(b) >= 10 {
		s.forms = append(s.forms, []byte(hex.EncodeToString(b)), []byte(strings.ToUpper(hex.EncodeToString(b))))
		for _, e := range []*base64.Encoding{base64.StdEncoding, base64.URLEncoding} {
			t := strings.TrimRight(e.EncodeToString(b), "=")
			s.forms = append(s.forms, []byte(t[:len(t)-2]))
		}
		s.forms = append(s.forms, []byte(fmt.Sprintf("%q", b)), []byte(strings.Trim(fmt.Sprint(b), "[]")))
	}
	return s
}

func findSecret(ss []c25Secret, where string, text []byte) error {
	for _, s := range ss {
		for _, f := range s.forms {
			if bytes.Contains(text, f) {
				i := bytes.Index(text, f)
				return fmt.Errorf("%s contains %s: ...%q...", where, s.what, clip(string(text[max(0, i-60):]), 200))
			}
		}
	}
	return nil
}

// c25Create is the helper process that creates a volume.
func c25Create(args []string) int {
	for _, a := range args[2:] {
		if a == "quiet" {
			tlog.Info.Enabled = false
		}
	}
	has := func(w string) bool {
		for _, a := range args[2:] {
			if a == w {
				return true
			}
		}
		return false
	}
	if err := configfile.Create(args[0], []byte(args[1]), has("plain"), 10, "verif", has("siv"), false, nil); err != nil {
		fmt.Fprintln(os.Stderr, "FAILED", err)
		return 1
	}
	return 0
}

func c25CreateExec(c c25Case, rec *Rec) error {
	dir, err := os.MkdirTemp("", "c25-")
	if err != nil {
		return inconclusive("%v", err)
	}
	defer os.RemoveAll(dir)
	rec.NonTrivial()
	file := filepath.Join(dir, "gocryptfs.conf")
	args := []string{"createvol", file, string(c.Vol.Pw)}
	if c.Siv {
		args = append(args, "siv")
	}
	if c.Quiet {
		args = append(args, "quiet")
	}
	if c.Plain {
		args = append(args, "plain")
	}
	cmd := exec.Command("/proc/self/exe", args...)
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stderr = &errb
	var in *pty
	if c.InTty {
		if in, err = openPTY(); err != nil {
			return err
		}
		defer in.close()
		cmd.Stdin, cmd.Stderr = in.slave, in.slave
	}
	var p *pty
	if c.Tty {
		if p, err = openPTY(); err != nil {
			return err
		}
		defer p.close()
		cmd.Stdout = p.slave
		rec.Label("volume created on a terminal")
	} else {
		cmd.Stdout = &out
		rec.Label("volume created without a terminal")
	}
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("creating a volume failed: %v %s", err, errb.String())
	}
	var shown string
	key, _, err := configfile.LoadAndDecrypt(file, append([]byte{}, c.Vol.Pw...))
	if err != nil || len(key) == 0 {
		return fmt.Errorf("the created volume does not open: %v", err)
	}
	secrets := []c25Secret{secretForms("the master key", key), secretForms("the password", c.Vol.Pw)}
	h := hex.EncodeToString(key)
	squeeze := func(s string) []byte { // also finds the key in chunks
		return regexp.MustCompile(`[^0-9a-zA-Z+/]`).ReplaceAll([]byte(s), nil)
	}
	if c.Tty {
		end := time.Now().Add(5 * time.Second)
		for {
			shown = p.shown()
			plain := regexp.MustCompile("\x1b\\[[0-9]*m").ReplaceAllString(shown, "")
			if c.Quiet || strings.Contains(string(squeeze(plain)), h) {
				break
			}
			if time.Now().After(end) {
				return fmt.Errorf("the reminder of the master key does not show the master key: %q", shown)
			}
			time.Sleep(time.Millisecond)
		}
		secrets = secrets[1:]
	} else {
		shown = out.String()
		if err := findSecret(secrets, "the output", squeeze(shown)); err != nil {
			return err
		}
	}
	if c.Quiet && c.Tty {
		if err := findSecret([]c25Secret{secretForms("the master key", key)}, "the terminal, in quiet mode,", squeeze(shown)); err != nil {
			return err
		}
	}
	if in != nil {
		errb.WriteString(in.shown())
	}
	for w, t := range map[string]string{"the output": shown, "the error output": errb.String()} {
		if err := findSecret(secrets, w, []byte(t)); err != nil {
			return err
		}
	}
	if err := findSecret([]c25Secret{secretForms("the master key", key)}, "the error output", squeeze(errb.String())); err != nil {
		return err
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return inconclusive("%v", err)
	}
	if err := findSecret([]c25Secret{secretForms("the master key", key), secretForms("the password", c.Vol.Pw)}, "the configuration file", b); err != nil {
		return err
	}
	ls, _ := os.ReadDir(dir)
	if len(ls) != 1 {
		return fmt.Errorf("creating a volume left %d files", len(ls))
	}
	return nil
}

func c25Exec(c c25Case, rec *Rec) error {
	if c.Kind == "create" {
		return c25CreateExec(c, rec)
	}
	e, err := newE2E(c.Vol, c.Vol.Seed, "proxyuser", c.Pass, []byte(c.KeyPw))
	if err != nil {
		return err
	}
	defer e.close()
	if c.Dbg {
		e.args = append(e.args, "-e")
		rec.Label("debug output")
	}
	root := e.vol.root.node
	conf := root.kid("gocryptfs.conf")
	good := string(conf.data)
	switch c.Start {
	case "badconf":
		conf.data = conf.data[:len(conf.data)*2/3]
	case "midconf": // the wrapped key is altered
		i := strings.Index(good, `"EncryptedKey": "`) + 20
		b := []byte(good)
		if b[i] == 'A' {
			b[i] = 'B'
		} else {
			b[i] = 'A'
		}
		conf.data = b
	case "noconf":
		conf.name = "other"
	case "down":
		e.r.refuse = true
	case "hostkey":
		e.knownHosts = hostLine(e.r.addr, signerFrom(12345).PublicKey())
	case "badjson":
		e.cfg["Remote"] = []int{1}
	case "invalid":
		switch rc := e.remoteCfg(); c.Miss {
		case 0:
			delete(e.cfg, "ProxyUser")
		case 1:
			delete(e.cfg, "KnownHostsPath")
		case 2:
			e.cfg["KnownHostsPath"] = e.path("missing")
		case 3, 4, 5, 6:
			delete(rc, []string{"Addr", "FileRoot", "User", "PrivateKeyPath"}[c.Miss-3])
		case 7:
			rc["PrivateKeyPath"] = e.path("missing")
		case 8:
			rc["PrivateKeyPath"] = e.dir
		}
	case "badkey": // decrypts to something that is no key
		blk := &pem.Block{Type: "EC PRIVATE KEY", Bytes: prng(c.Vol.Seed, 120)}
		if c.KeyPw != "" {
			//lint:ignore SA1019 the format under test
			if blk, err = x509.EncryptPEMBlock(rand.Reader, blk.Type, blk.Bytes, []byte(c.KeyPw), x509.PEMCipherAES128); err != nil {
				return inconclusive("%v", err)
			}
		}
		e.keyPem = pem.EncodeToMemory(blk)
	}
	if c.Damage {
		for i, f := range e.vol.files {
			if d := f.node.data; len(d) > 30 {
				d[18+16+(i*7)%(len(d)-34)] ^= 1
			}
		}
	}
	traceFile := filepath.Join(e.dir, "trace")
	if c.Trace {
		if _, err := exec.LookPath("strace"); err != nil {
			return inconclusive("no strace")
		}
		bin := os.Getenv("VH_BIN")
		sh := filepath.Join(e.dir, "traced")
		script := fmt.Sprintf("#!/bin/sh\nexec strace -f -qq -e signal=none -e trace=write,pwrite64,writev,pwritev,pwritev2,sendto,sendmsg,openat,open,creat,rename,renameat,renameat2,symlinkat,linkat,memfd_create -xx -s 1000000 -o %s %s \"$@\"\n", traceFile, bin)
		if err := os.WriteFile(sh, []byte(script), 0o700); err != nil {
			return inconclusive("%v", err)
		}
		e.bin = sh
		rec.Label("writes recorded")
	}
	var decided int
	if c.Fault > 0 {
		e.r.decide = func(q rreq) rAction {
			e.r.mu.Lock()
			decided++
			n := decided
			e.r.mu.Unlock()
			if n%c.Fault == 0 && path.Base(q.path) != "gocryptfs.conf" {
				return rErr
			}
			return rOK
		}
	}
	if err := e.launch(c.Start != "notty"); err != nil {
		return err
	}
	typed := []string{}
	up := false
	if c.Start == "notty" {
		if !e.ended(e2eLimit) {
			return fmt.Errorf("without a terminal the program neither fails nor ends: %s", e.said())
		}
	} else {
		n := 0
		up, err = e.drive(func(_ int, prompt string) ([]byte, error) {
			n++
			if n > 8 {
				return nil, fmt.Errorf("the program keeps asking for passphrases")
			}
			pw := c.KeyPw
			if strings.Contains(prompt, "gocryptfs root") {
				pw = string(c.Vol.Pw)
				if c.Start == "wrongpw" {
					pw = c.near(pw)
				}
				if c.Start == "emptypw" {
					pw = ""
				}
			} else if c.Start == "wrongkeypw" {
				pw = c.near(pw)
			}
			typed = append(typed, pw)
			rec.NonTrivial()
			return []byte(pw), nil
		})
		if err != nil {
			return err
		}
	}
	should := c.Start == "ok" || c.Start == "wrongkeypw" && c.KeyPw == ""
	if up != should {
		return fmt.Errorf("start %q: listening %v, want %v: %s", c.Start, up, should, clip(e.said(), 600))
	}
	rec.Label("start " + c.Start)

	secrets := []c25Secret{
		secretForms("the volume's passphrase", c.Vol.Pw),
		secretForms("the proxy password", []byte(c.Pass)),
		secretForms("the master key", e.vol.ref.Master),
	}
	if c.KeyPw != "" {
		secrets = append(secrets, secretForms("the private key's passphrase", []byte(c.KeyPw)))
	}
	_, plainPem := ecKey(c.Vol.Seed+2, nil)
	blk, _ := pem.Decode(plainPem)
	secrets = append(secrets, secretForms("the private key", blk.Bytes[7:7+32]))
	for i, l := range strings.Split(string(plainPem), "\n") {
		if i > 0 && len(l) > 40 && !strings.HasPrefix(l, "---") {
			secrets = append(secrets, c25Secret{"the private key", [][]byte{[]byte(l)}})
		}
	}
	for _, s := range typed {
		if s == "" {
			continue
		}
		secrets = append(secrets, secretForms("a typed passphrase", []byte(s)))
	}
	for _, f := range e.vol.files {
		if len(f.content) >= 32 {
			for o := 0; o+32 <= len(f.content); o += max(1024, len(f.content)/40) {
				if bytes.Equal(f.content[o:o+32], make([]byte, 32)) {
					continue // in a hole
				}
				secrets = append(secrets, secretForms("a file's plaintext", f.content[o:o+32]))
			}
		}
	}
	var asked []string
	if up {
		for i := 0; i < c.Logins; i++ {
			wrong := c.near(c.Pass) + fmt.Sprint("#-", i)
			secrets = append(secrets, secretForms("a password offered by a client", []byte(wrong)))
			cfg := e.login()
			cfg.Auth = []ssh.AuthMethod{ssh.Password(wrong)}
			if cl, err := dialSSH(cfg); err == nil {
				cl.Close()
				return fmt.Errorf("a wrong password was accepted")
			}
		}
		s, err := e.connect()
		if err != nil {
			return err
		}
		defer s.close()
		err = timed("the requests", func() error {
			for _, n := range e.vol.all {
				if c.Names {
					miss := path.Join(n.path, "Fehlt-diese-Datei") + string(n.path[len(n.path)-1])
					asked = append(asked, path.Base(miss))
					_, _ = s.c.Stat(miss)
					_, _ = s.c.ReadDir(miss)
					if f, err := s.c.Open(path.Dir(n.path) + "/nicht-vorhanden-xyz"); err == nil {
						f.Close()
					}
					asked = append(asked, "nicht-vorhanden-xyz")
				}
				_, _ = s.c.Stat(n.path)
				if n.dir {
					_, _ = s.c.ReadDir(n.path)
					continue
				}
				if f, err := s.c.Open(n.path); err == nil {
					var b bytes.Buffer
					_, _ = f.WriteTo(&b)
					f.Close()
				}
			}
			_, _ = s.c.ReadDir("/")
			return nil
		})
		if err != nil {
			return err
		}
		if !e.g.alive() {
			return fmt.Errorf("the program ended: %s", firstPanic(e.g.err.String()))
		}
		s.close()
	}
	// nothing is left in files
	left := func() []string {
		var l []string
		for _, d := range []string{"tmp", "home", "cwd"} {
			_ = filepath.WalkDir(filepath.Join(e.dir, d), func(p string, de fs.DirEntry, err error) error {
				if err == nil && !de.IsDir() {
					l = append(l, p)
				}
				return nil
			})
		}
		return l
	}
	if l := left(); len(l) > 0 {
		return fmt.Errorf("start %q: the program left %v behind", c.Start, l)
	}
	if up {
		e.g.stopSoftly()
	}
	for w, t := range map[string]string{"standard output": e.g.out.String(), "standard error": e.g.err.String()} {
		if err := findSecret(secrets, w, []byte(t)); err != nil {
			return err
		}
	}
	if e.g.tty != nil {
		if err := findSecret(secrets, "the terminal", []byte(e.g.tty.shown())); err != nil {
			return err
		}
	}
	if c.Trace {
		if err := c25Trace(secrets, traceFile, e.dir); err != nil {
			return err
		}
	}
	// the remote learns encrypted names only
	known := map[string]bool{"/": true, ".": true}
	for p := e.vol.root.cpath; p != "/" && p != "."; p = path.Dir(p) {
		known[p] = true
	}
	for _, d := range e.vol.dirs {
		known[d.cpath] = true
		known[path.Join(d.cpath, "gocryptfs.diriv")] = true
	}
	for _, f := range e.vol.files {
		known[f.cpath] = true
	}
	known[path.Join(e.vol.root.cpath, "gocryptfs.conf")] = true
	for _, q := range e.r.requests() {
		for _, a := range asked {
			if strings.Contains(q.path, a) {
				return fmt.Errorf("the remote was asked for %q: it learns a plaintext name a client asked for", q.path)
			}
		}
		if strings.HasPrefix(q.op, "chanreq:") {
			if q.op != "chanreq:subsystem" {
				return fmt.Errorf("the remote got a request %s %q", q.op, q.path)
			}
			continue
		}
		if !known[path.Clean(q.path)] {
			return fmt.Errorf("the remote was asked for %q, which is no object of the volume", q.path)
		}
	}
	e.r.mu.Lock()
	defer e.r.mu.Unlock()
	for _, a := range e.r.auths {
		if err := findSecret(secrets, "what was sent to the remote", []byte(a)); err != nil {
			return err
		}
	}
	return nil
}

var (
	c25Write = regexp.MustCompile(`^\d+ +(write|pwrite64|writev|pwritev2?|sendto|sendmsg)\(([0-9]+)`)
	c25Open  = regexp.MustCompile(`^\d+ +(?:openat\([^,]+, |open\(|creat\()"((?:\\x[0-9a-f]{2})*)"(.*)$`)
	c25Str   = regexp.MustCompile(`"((?:\\x[0-9a-f]{2})*)"`)
)

func unhex(s string) []byte {
	b, _ := hex.DecodeString(strings.ReplaceAll(s, `\x`, ""))
	return b
}

// c25Trace looks through everything the program wrote.
func c25Trace(secrets []c25Secret, file, dir string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return inconclusive("no trace: %v", err)
	}
	if len(b) == 0 {
		return inconclusive("the trace is empty")
	}
	fds := map[string][]byte{}
	for _, l := range strings.Split(string(b), "\n") {
		if m := c25Write.FindStringSubmatch(l); m != nil {
			for _, s := range c25Str.FindAllStringSubmatch(l, -1) {
				fds[m[2]] = append(fds[m[2]], unhex(s[1])...)
			}
			continue
		}
		if m := c25Open.FindStringSubmatch(l); m != nil {
			p := string(unhex(m[1]))
			if !strings.Contains(m[2], "O_WRONLY") && !strings.Contains(m[2], "O_RDWR") && !strings.Contains(m[2], "O_CREAT") {
				continue
			}
			if strings.HasPrefix(p, "/dev/") || strings.HasPrefix(p, "/proc/") {
				continue
			}
			if !strings.HasPrefix(p, dir+"/") && filepath.IsAbs(p) {
				return fmt.Errorf("the program opened %s for writing", p)
			}
		}
	}
	for fd, w := range fds {
		n, _ := strconv.Atoi(fd)
		if err := findSecret(secrets, fmt.Sprintf("what the program wrote to descriptor %d", n), w); err != nil {
			return err
		}
	}
	return nil
}
