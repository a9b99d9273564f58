package main

// The running program: its configuration files, its remote, and clients.

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

const proxyAddr = "127.0.0.1:9022"

// limit for things that normally take milliseconds
const e2eLimit = 40 * time.Second

// ecKey is a deterministic ECDSA key and its PEM text, encrypted if pw is not empty.
func ecKey(seed uint64, pw []byte) (ssh.Signer, []byte) {
	curve := elliptic.P256()
	d := new(big.Int).SetBytes(prng(seed^0xec, 31))
	d.Add(d, big.NewInt(1))
	k := &ecdsa.PrivateKey{D: d}
	k.Curve = curve
	k.X, k.Y = curve.ScalarBaseMult(d.Bytes())
	der, err := x509.MarshalECPrivateKey(k)
	if err != nil {
		panic(err)
	}
	blk := &pem.Block{Type: "EC PRIVATE KEY", Bytes: der}
	if len(pw) > 0 {
		//lint:ignore SA1019 the format under test
		if blk, err = x509.EncryptPEMBlock(rand.Reader, blk.Type, der, pw, x509.PEMCipherAES128); err != nil {
			panic(err)
		}
	}
	s, err := ssh.NewSignerFromKey(k)
	if err != nil {
		panic(err)
	}
	return s, pem.EncodeToMemory(blk)
}

// hostLine is a line of a known-hosts file.
func hostLine(addr string, key ssh.PublicKey) string {
	h, p, _ := net.SplitHostPort(addr)
	name := h
	if p != "22" {
		name = fmt.Sprintf("[%s]:%s", h, p)
	}
	return fmt.Sprintf("%s %s %s\n", name, key.Type(), base64.StdEncoding.EncodeToString(key.Marshal()))
}

type e2e struct {
	dir    string
	vol    *Vol
	r      *SSHRemote
	host   ssh.Signer
	key    ssh.Signer
	keyPem []byte
	keyPw  []byte
	user   string // proxy login
	pass   string
	ruser  string
	g      *prog
	unlock func()
	// overrides before start
	knownHosts string
	cfg        map[string]any
	args       []string
	env        []string
	bin        string // wrapper around the program
	layout     int    // spelling of the configuration file
}

// newE2E prepares a volume at a remote, and the program's files.
func newE2E(spec VolSpec, seed uint64, user, pass string, keyPw []byte) (*e2e, error) {
	if os.Getenv("VH_BIN") == "" {
		return nil, inconclusive("VH_BIN is not set")
	}
	e := &e2e{vol: buildVol(spec), host: signerFrom(seed + 1), user: user, pass: pass, ruser: "remote user", keyPw: keyPw}
	e.key, e.keyPem = ecKey(seed+2, keyPw)
	var err error
	if e.dir, err = os.MkdirTemp("", "e2e-"); err != nil {
		return nil, inconclusive("%v", err)
	}
	for _, d := range []string{"tmp", "home", "cwd", "conf"} {
		if err := os.Mkdir(filepath.Join(e.dir, d), 0o700); err != nil {
			return nil, inconclusive("%v", err)
		}
	}
	if e.r, err = newSSHRemote(e.vol.fs, e.host, e.ruser, e.key.PublicKey()); err != nil {
		return nil, err
	}
	e.knownHosts = hostLine(e.r.addr, e.host.PublicKey())
	e.cfg = map[string]any{
		"ProxyUser": user, "ProxyPassword": pass, "KnownHostsPath": e.path("known_hosts"),
		"Remote": map[string]any{"Addr": e.r.addr, "FileRoot": spec.Root, "User": e.ruser, "PrivateKeyPath": e.path("id")},
	}
	return e, nil
}

func (e *e2e) path(n string) string { return filepath.Join(e.dir, "conf", n) }

func (e *e2e) remoteCfg() map[string]any { return e.cfg["Remote"].(map[string]any) }

func (e *e2e) close() {
	if e.g != nil {
		e.g.stop()
	}
	if e.unlock != nil {
		e.unlock()
	}
	e.r.close()
	os.RemoveAll(e.dir)
}

// launch starts the program without answering anything.
func (e *e2e) launch(tty bool) error {
	js, err := json.Marshal(e.cfg)
	if err != nil {
		return inconclusive("%v", err)
	}
	switch e.layout {
	case 1:
		var b bytes.Buffer
		_ = json.Indent(&b, js, "\t", "    ")
		js = b.Bytes()
	case 2:
		js = append(append([]byte("\n\n  "), js...), "\r\n\r\n"...)
	case 3: // an unknown field, in front
		js = append([]byte(`{"Comment": ["x", {"ProxyUser": "nobody"}], `), js[1:]...)
	}
	for n, b := range map[string][]byte{"config.json": js, "known_hosts": []byte(e.knownHosts), "id": e.keyPem} {
		if err := os.WriteFile(e.path(n), b, 0o600); err != nil {
			return inconclusive("%v", err)
		}
	}
	e.unlock = takePort()
	end := time.Now().Add(e2eLimit)
	for listening() {
		// the previous program's socket
		if time.Now().After(end) {
			return inconclusive("port 9022 is in use")
		}
		time.Sleep(5 * time.Millisecond)
	}
	args := append([]string{"-c", e.path("config.json")}, e.args...)
	env := append([]string{"TMPDIR=" + filepath.Join(e.dir, "tmp"), "HOME=" + filepath.Join(e.dir, "home"), "GOTRACEBACK=single"}, e.env...)
	bin := os.Getenv("VH_BIN")
	if e.bin != "" {
		bin = e.bin
	}
	e.g, err = startProgIn(filepath.Join(e.dir, "cwd"), tty, env, bin, args...)
	return err
}

// start launches the program, types the passphrases, and reports whether it
// listens (false: it ended).
func (e *e2e) start() (bool, error) {
	if err := e.launch(true); err != nil {
		return false, err
	}
	typed := 0
	return e.drive(func(n int, prompt string) ([]byte, error) {
		typed++
		if typed > 4 {
			return nil, fmt.Errorf("the program keeps asking for passphrases: %s", e.g.out.String())
		}
		if strings.Contains(prompt, "gocryptfs root") {
			return e.vol.spec.Pw, nil
		}
		return e.keyPw, nil
	})
}

// drive answers prompts until the program listens (true) or ended (false).
func (e *e2e) drive(answer func(n int, prompt string) ([]byte, error)) (bool, error) {
	for {
		p, err := e.g.waitPrompt(e2eLimit, listening)
		if err != nil {
			return false, err
		}
		if !p {
			if !e.g.alive() {
				return false, nil
			}
			return true, nil
		}
		ps := strings.Split(e.g.out.String(), "Enter passphrase")
		b, err := answer(e.g.answered, ps[len(ps)-1])
		if err != nil {
			return false, err
		}
		if b == nil {
			return false, nil // nobody answers
		}
		if err := e.g.answer(append(append([]byte{}, b...), '\n')); err != nil {
			return false, err
		}
	}
}

// mustStart expects the program to come up.
func (e *e2e) mustStart() error {
	ok, err := e.start()
	if err != nil {
		return err
	}
	if !ok {
		return fmt.Errorf("the program ended at startup although everything was in order: %s", clip(e.said(), 1500))
	}
	return nil
}

func (e *e2e) said() string { return e.g.out.String() + e.g.err.String() }

// ended waits for the end of the program.
func (e *e2e) ended(limit time.Duration) bool {
	select {
	case <-e.g.done:
		return true
	case <-time.After(limit):
		return false
	}
}

// listening reports whether something listens on the program's port.
func listening() bool {
	for _, f := range []string{"/proc/self/net/tcp", "/proc/self/net/tcp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 3 && strings.HasSuffix(w[1], ":233E") && w[3] == "0A" {
				return true
			}
		}
	}
	return false
}

func (e *e2e) login() *ssh.ClientConfig {
	return &ssh.ClientConfig{User: e.user, Auth: []ssh.AuthMethod{ssh.Password(e.pass)}, HostKeyCallback: ssh.FixedHostKey(e.key.PublicKey()), Timeout: e2eLimit}
}

// dialSSH is ssh.Dial with a limit on the whole handshake.
func dialSSH(cfg *ssh.ClientConfig) (*ssh.Client, error) { return dialSSHAt(proxyAddr, cfg) }

func dialSSHAt(addr string, cfg *ssh.ClientConfig) (*ssh.Client, error) {
	c, err := net.DialTimeout("tcp", addr, e2eLimit)
	if err != nil {
		return nil, err
	}
	_ = c.SetDeadline(time.Now().Add(e2eLimit))
	sc, chans, reqs, err := ssh.NewClientConn(c, addr, cfg)
	if err != nil {
		c.Close()
		return nil, err
	}
	_ = c.SetDeadline(time.Time{})
	return ssh.NewClient(sc, chans, reqs), nil
}

// session is a logged-in client.
type session struct {
	ssh *ssh.Client
	c   *sftp.Client
}

func (s *session) close() {
	s.ssh.Close()
}

func timed(what string, f func() error) error {
	ch := make(chan error, 1)
	go func() { ch <- f() }()
	select {
	case err := <-ch:
		return err
	case <-time.After(e2eLimit):
		return fmt.Errorf("%s did not end within %v", what, e2eLimit)
	}
}

// connect logs in and opens an SFTP session.
func (e *e2e) connect() (*session, error) {
	c, err := dialSSH(e.login())
	if err != nil {
		return nil, fmt.Errorf("a client with the right user and password cannot log in: %v (program alive: %v) %s", err, e.g.alive(), clip(firstPanic(e.g.err.String()), 800))
	}
	return e.connectOn(&session{ssh: c})
}

// connectOn opens an SFTP session on a logged-in connection.
func (e *e2e) connectOn(s *session) (*session, error) {
	err := timed("opening an SFTP session", func() error {
		var err error
		s.c, err = sftp.NewClient(s.ssh)
		return err
	})
	if err != nil {
		s.ssh.Close()
		return nil, fmt.Errorf("a logged-in client cannot open an SFTP session: %v (program alive: %v) %s", err, e.g.alive(), clip(firstPanic(e.g.err.String()), 800))
	}
	return s, nil
}

// look checks one item of the volume through a session.
func (e *e2e) look(s *session, pick int) error {
	return timed("a request", func() error {
		if len(e.vol.files) > 0 && pick%3 != 2 {
			f := e.vol.files[(pick/3)%len(e.vol.files)]
			h, err := s.c.Open(f.path)
			if err != nil {
				return fmt.Errorf("open %q: %v", f.path, err)
			}
			defer h.Close()
			var b bytes.Buffer
			if _, err := h.WriteTo(&b); err != nil {
				return fmt.Errorf("read %q: %v", f.path, err)
			}
			if !bytes.Equal(b.Bytes(), f.content) {
				return fmt.Errorf("read %q: %s", f.path, diffBytes(b.Bytes(), f.content))
			}
			fi, err := s.c.Stat(f.path)
			if err != nil {
				return fmt.Errorf("stat %q: %v", f.path, err)
			}
			if fi.Size() != int64(len(f.content)) || fi.IsDir() {
				return fmt.Errorf("stat %q: size %d, want %d", f.path, fi.Size(), len(f.content))
			}
			return nil
		}
		d := e.vol.dirs[(pick/3)%len(e.vol.dirs)]
		ls, err := s.c.ReadDir(d.path)
		if err != nil {
			return fmt.Errorf("list %q: %v", d.path, err)
		}
		return cmpNames("list "+d.path, names(ls), sortedNames(d.kids))
	})
}
