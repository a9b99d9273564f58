//go:build all || c24

package main

// C24: one client cannot take the proxy away from the others.

import (
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
)

type c24Act struct {
	Kind  string `json:"kind"`
	N     int    `json:"n,omitempty"`     // how many times
	Cut   int    `json:"cut,omitempty"`   // bytes until the client stalls or drops
	Drop  bool   `json:"drop,omitempty"`  // drops instead of stalling
	Name  string `json:"name,omitempty"`  // channel type or request name
	Data  []byte `json:"data,omitempty"`  // payload
	Pad   int    `json:"pad,omitempty"`   // bytes after the payload
	Reply bool   `json:"reply,omitempty"` // wants a reply
	Times int    `json:"times,omitempty"` // more requests of this kind on the channel
	Then  bool   `json:"then,omitempty"`  // then asks for the sftp subsystem on the same channel
	Check bool   `json:"check,omitempty"` // look at the service after this one
}

type c24Case struct {
	Vol  VolSpec  `json:"vol"`
	User string   `json:"user"`
	Pass string   `json:"pass"`
	Old  int      `json:"old"`           // well-behaved sessions opened before
	Max  int      `json:"max,omitempty"` // descriptors the program may have; its clients use them up
	Dbg  bool     `json:"dbg,omitempty"`
	Acts []c24Act `json:"acts"`
}

var c24Kinds = []string{"silent", "version", "garbage", "cut", "cut", "cut", "badauth", "loggedin", "chantype", "chanreq", "chanreq", "subsystem", "subsystem", "global", "manychans", "nosub", "rawdata", "sftpdrop", "sftpstall", "sftpcut", "openrst", "openrst", "nofile", "write", "openleft"}

func init() {
	reg(Prop{
		ID: "C24", Quick: 800, Thorough: 20000, NetNS: true, Fixed: c24Fixed, Recycle: 40, CaseTimeout: 8 * time.Minute, ShrinkTime: 60 * time.Second,
		Rule:  "a case is a running proxy with 0-4 well-behaved sessions and 1-8 misbehaving clients: silent or garbage-sending ones, ones that stall or drop after any number of bytes of the handshake, of the login or of an SFTP session, failed logins, odd channel types, channel and global requests with arbitrary payloads (none, too short, wrong), many channels, sessions left open, unread data, long pauses, more clients than there are descriptors; after them the old sessions and a new client read and list the volume; non-trivial = at least one misbehaving client; oracle: the plaintext model within 40 s, the process alive, unknown channels and requests refused",
		Setup: "misbehaving clients do not break the encoding of SSH or SFTP packets once the handshake is done",
	}, func(t *rapid.T, tier Tier) c24Case {
		c := c24Case{User: "u", Pass: genCred24(t), Old: rapid.IntRange(0, 4).Draw(t, "old"), Dbg: rapid.Bool().Draw(t, "dbg")}
		v := genVol(t)
		v.Pw = genTyped(t, "vpw")
		v.Tree = []TNode{{Name: []byte("a"), Size: 5000}, {Name: []byte("big"), Size: 3 << 20}, {Name: []byte("d"), Dir: true, Kids: []TNode{{Name: []byte("x"), Size: 1}}}}
		c.Vol = v
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "nacts"); i < n; i++ {
			l := fmt.Sprint("a", i)
			a := c24Act{Kind: rapid.SampledFrom(c24Kinds).Draw(t, l), N: 1, Check: rapid.IntRange(0, 2).Draw(t, l+"/check") == 0}
			if rapid.IntRange(0, 3).Draw(t, l+"/many") == 0 {
				a.N = rapid.IntRange(2, 40).Draw(t, l+"/n")
			}
			a.Drop = rapid.Bool().Draw(t, l+"/drop")
			switch a.Kind {
			case "cut":
				a.Cut = rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 2500)).Draw(t, l+"/cut")
			case "sftpcut":
				a.Cut = rapid.IntRange(0, 400).Draw(t, l+"/cut")
			case "garbage", "rawdata":
				a.Data = rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, l+"/data")
				if a.Kind == "garbage" && rapid.Bool().Draw(t, l+"/ver") {
					a.Data = append([]byte("SSH-2.0-x\r\n"), a.Data...)
				}
			case "chantype":
				a.Name = rapid.SampledFrom([]string{"direct-tcpip", "x11", "forwarded-tcpip", "auth-agent@openssh.com", "", "Session", "session ", "sftp", "tun@openssh.com", "%s%n"}).Draw(t, l+"/name")
				a.Data = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, l+"/data")
			case "chanreq":
				a.Name = rapid.SampledFrom([]string{"shell", "exec", "pty-req", "env", "x11-req", "window-change", "signal", "auth-agent-req@openssh.com", "", "eow@openssh.com", "keepalive@openssh.com", "Subsystem", "%d"}).Draw(t, l+"/name")
				a.Data = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, l+"/data")
				if a.Name == "exec" && rapid.Bool().Draw(t, l+"/cmd") {
					s := rapid.SampledFrom(c24Cmds).Draw(t, l+"/cmdline")
					a.Data = append([]byte{0, 0, 0, byte(len(s))}, s...)
				}
				a.Reply = rapid.IntRange(0, 3).Draw(t, l+"/reply") != 0
				a.Times = rapid.SampledFrom([]int{0, 0, 1, 3, 30}).Draw(t, l+"/times")
				a.Then = rapid.Bool().Draw(t, l+"/then")
			case "subsystem":
				switch rapid.IntRange(0, 4).Draw(t, l+"/p") {
				case 0:
					a.Data = rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, l+"/data")
				case 1:
					a.Data = []byte{0, 0, 0, 4, 's', 'f', 't', 'p'}[:rapid.IntRange(0, 7).Draw(t, l+"/len")]
				case 2:
					n := rapid.SampledFrom(c24Subs).Draw(t, l+"/sub")
					a.Data = append([]byte{0, 0, 0, byte(len(n))}, n...)
				default:
					a.Data = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, l+"/data")
				}
				a.Reply = rapid.IntRange(0, 3).Draw(t, l+"/reply") != 0
				a.Times = rapid.SampledFrom([]int{0, 0, 1, 3, 30}).Draw(t, l+"/times")
				a.Then = rapid.Bool().Draw(t, l+"/then")
			case "global":
				a.Name = rapid.SampledFrom([]string{"tcpip-forward", "cancel-tcpip-forward", "keepalive@openssh.com", "no-more-sessions@openssh.com", "streamlocal-forward@openssh.com", ""}).Draw(t, l+"/name")
				a.Data = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, l+"/data")
				if a.Name == "tcpip-forward" {
					a.Data = append([]byte{0, 0, 0, 9}, "127.0.0.1\x00\x00\x23\x29"...)
				}
				a.Reply = rapid.IntRange(0, 3).Draw(t, l+"/reply") != 0
				a.Times = rapid.SampledFrom([]int{0, 0, 1, 3, 40}).Draw(t, l+"/times")
				a.Then = rapid.Bool().Draw(t, l+"/then")
			}
			if len(a.Data) > 0 && a.Kind != "garbage" && a.Kind != "rawdata" && rapid.IntRange(0, 3).Draw(t, l+"/pad?") == 0 {
				a.Pad = rapid.SampledFrom([]int{200, 256, 1024, 1025, 4096, 30000, 32768}).Draw(t, l+"/pad")
			}
			c.Acts = append(c.Acts, a)
		}
		return c
	}, c24Exec)
}

func genCred24(t *rapid.T) string { return rapid.StringMatching(`[a-z]{1,8}`).Draw(t, "pass") }

// cutConn passes a limited number of bytes to the server, then stalls or drops.
type cutConn struct {
	net.Conn
	mu   sync.Mutex
	left int
	drop bool
	hang chan struct{}
	once sync.Once
}

func (c *cutConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.left >= len(b) {
		c.left -= len(b)
		return c.Conn.Write(b)
	}
	if c.left > 0 {
		_, _ = c.Conn.Write(b[:c.left])
		c.left = 0
	}
	if c.drop {
		c.Conn.Close()
	}
	c.once.Do(func() { close(c.hang) })
	select {} // this client never goes on
}

func (c *cutConn) cut(n int) {
	c.mu.Lock()
	c.left = n
	c.mu.Unlock()
}

func c24Exec(c c24Case, rec *Rec) error {
	e, err := newE2E(c.Vol, c.Vol.Seed, c.User, c.Pass, nil)
	if err != nil {
		return err
	}
	defer e.close()
	if c.Dbg {
		e.args = []string{"-e"}
	}
	if c.Max > 0 {
		sh := filepath.Join(e.dir, "limited")
		script := fmt.Sprintf("#!/bin/sh\nulimit -n %d\nexec %s \"$@\"\n", c.Max, os.Getenv("VH_BIN"))
		if err := os.WriteFile(sh, []byte(script), 0o700); err != nil {
			return inconclusive("%v", err)
		}
		e.bin = sh
	}
	if err := e.mustStart(); err != nil {
		return err
	}
	var closers []io.Closer
	defer func() {
		for _, k := range closers {
			k.Close()
		}
	}()
	var mu sync.Mutex
	keep := func(k io.Closer) {
		mu.Lock()
		closers = append(closers, k)
		mu.Unlock()
	}
	var old []*session
	for i := 0; i < c.Old; i++ {
		s, err := e.connect()
		if err != nil {
			return err
		}
		keep(s.ssh)
		old = append(old, s)
	}
	service := func(when string) error {
		for i, s := range old {
			if err := e.look(s, i); err != nil {
				return fmt.Errorf("%s: an older session no longer works: %v; %s", when, err, c24Dead(e))
			}
		}
		s, err := e.connect()
		if err != nil {
			return fmt.Errorf("%s: %v", when, err)
		}
		defer s.close()
		for i := 0; i < 3; i++ {
			if err := e.look(s, i); err != nil {
				return fmt.Errorf("%s: a new session does not work: %v; %s", when, err, c24Dead(e))
			}
		}
		return nil
	}
	for i, a := range c.Acts {
		rec.NonTrivial()
		rec.Label(a.Kind)
		if a.Kind == "idle" {
			time.Sleep(time.Duration(a.N) * time.Second)
			if err := service(fmt.Sprintf("after %d quiet seconds", a.N)); err != nil {
				return err
			}
			continue
		}
		if c.Max > 0 {
			if err := c24Exhaust(e, a, len(old)); err != nil {
				return fmt.Errorf("%v; %s", err, c24Dead(e))
			}
			if err := service(fmt.Sprintf("after clients used up %d descriptors and hung up", c.Max)); err != nil {
				return err
			}
			continue
		}
		a.Data = append(a.Data[:len(a.Data):len(a.Data)], make([]byte, a.Pad)...)
		errs := make(chan error, a.N)
		for k := 0; k < a.N; k++ {
			go func() { errs <- c24Do(e, a, keep, i*100+k) }()
		}
		for k := 0; k < a.N; k++ {
			if err := <-errs; err != nil {
				return fmt.Errorf("client %d (%s): %v; %s", i, a.Kind, err, c24Dead(e))
			}
		}
		if a.Check {
			if err := service(fmt.Sprintf("after client %d (%s)", i, a.Kind)); err != nil {
				return err
			}
		}
	}
	if err := service("after all clients"); err != nil {
		return err
	}
	if !e.g.alive() {
		return fmt.Errorf("the program ended: %s", firstPanic(e.g.err.String()))
	}
	// once everybody has hung up, the program has hung up as well
	mu.Lock()
	for _, k := range closers {
		k.Close()
	}
	mu.Unlock()
	end := time.Now().Add(e2eLimit)
	for {
		n := heldSockets()
		if n == 0 {
			break
		}
		if time.Now().After(end) {
			return fmt.Errorf("%d connections are still held %v after all clients have hung up", n, e2eLimit)
		}
		time.Sleep(2 * time.Millisecond)
	}
	s, err := e.connect()
	if err != nil {
		return fmt.Errorf("after all clients have hung up: %v", err)
	}
	defer s.close()
	return e.look(s, 0)
}

var c24Cmds = []string{"id; ls;", "scp -f /x", "scp -t .", "scp ", "scp", "sftp-server", "internal-sftp", "/usr/lib/openssh/sftp-server", "/usr/libexec/sftp-server -e", "sftp", "rsync --server --sender . /", "git-upload-pack '/x'", "", "true", "echo"}

var c24Subs = []string{"sftp2", "SFTP", "sft", "", "shell", "sftp\x00", "sftpsftp", "netconf", "xsftp", "nosftp", " sftp", "sftp ", "sftp-server", "internal-sftp", "sftp@openssh.com", "/sftp", "Sftp", "\x00sftp", "ſftp"}

// c24Fixed has what takes long: quiet periods, and very many clients.
func c24Fixed(tier Tier, seed uint64) []any {
	vol := VolSpec{Seed: seed, Pw: []byte("pw"), Root: "/vol", Workers: 1, Tree: []TNode{{Name: []byte("a"), Size: 5000}, {Name: []byte("big"), Size: 3 << 20}, {Name: []byte("d"), Dir: true, Kids: []TNode{{Name: []byte("x"), Size: 1}}}}}
	mk := func(old int, acts ...c24Act) c24Case {
		for i := range acts {
			acts[i].Check = true
		}
		return c24Case{Vol: vol, User: "u", Pass: "p", Old: old, Acts: acts}
	}
	act := func(k string, n int, drop bool) c24Act { return c24Act{Kind: k, N: n, Drop: drop} }
	lim := mk(2, act("fill", 0, false), act("fill", 0, false))
	lim.Max = 40
	lim2 := mk(0, act("fill", 1, false), act("fill", 1, false))
	lim2.Max = 24
	idle := 65
	if tier == "thorough" {
		idle = 330
	}
	var odd []c24Act
	str := func(s string) []byte { return append([]byte{0, 0, 0, byte(len(s))}, s...) }
	for _, s := range c24Cmds {
		odd = append(odd, c24Act{Kind: "chanreq", N: 1, Name: "exec", Data: str(s), Reply: true}, c24Act{Kind: "chanreq", N: 1, Name: "shell", Data: str(s), Reply: true, Then: true})
	}
	for _, s := range c24Subs {
		odd = append(odd, c24Act{Kind: "subsystem", N: 1, Data: str(s), Reply: true})
	}
	for _, s := range []string{"env", "pty-req", "subsystem@openssh.com", "exec@openssh.com", "sftp", "xsubsystem", "subsystems", "SUBSYSTEM"} {
		odd = append(odd, c24Act{Kind: "chanreq", N: 1, Name: s, Data: str("sftp"), Reply: true})
	}
	return []any{
		mk(0, odd...),
		mk(3, act("idle", idle, false)),
		mk(1, act("silent", 300, false), act("badauth", 300, true), act("cut", 200, true)),
		mk(2, act("loggedin", 250, false), act("manychans", 60, false)),
		mk(1, c24Act{Kind: "manychans", N: 2, Times: 300}, c24Act{Kind: "manychans", N: 2, Times: 600, Drop: true}),
		lim,
		mk(1, act("nofile", 150, true), act("openleft", 120, false)),
		lim2,
		mk(0, act("garbage", 500, true), act("openrst", 200, true), act("write", 100, true)),
		mk(1, c24Act{Kind: "chanreq", N: 1, Name: "keepalive@openssh.com", Reply: true, Times: 1500, Then: true},
			c24Act{Kind: "chanreq", N: 1, Name: "window-change", Data: make([]byte, 16), Times: 3000, Then: true},
			c24Act{Kind: "subsystem", N: 1, Data: []byte("\x00\x00\x00\x05sftp2"), Reply: true, Times: 1200, Then: true},
			c24Act{Kind: "global", N: 1, Name: "keepalive@openssh.com", Reply: true, Times: 3000, Then: true},
			c24Act{Kind: "global", N: 1, Name: "hostkeys-prove-00@openssh.com", Data: make([]byte, 60), Times: 5000, Then: true}),
		mk(1, act("sftpstall", 60, false), act("sftpdrop", 60, true), act("sftpcut", 60, false)),
	}
}

// c24Exhaust opens connections until the program has no descriptors left,
// and hangs up.
func c24Exhaust(e *e2e, a c24Act, old int) error {
	var cs []net.Conn
	for i := 0; i < 80; i++ {
		c, err := net.DialTimeout("tcp", proxyAddr, e2eLimit)
		if err != nil {
			break
		}
		if a.N > 0 {
			_, _ = c.Write([]byte("SSH-2.0-x\r\n"))
		}
		cs = append(cs, c)
	}
	time.Sleep(200 * time.Millisecond)
	for _, c := range cs {
		c.Close()
	}
	end := time.Now().Add(e2eLimit)
	for clientSockets(false) > old {
		if !e.g.alive() {
			return fmt.Errorf("the program ended when it had no descriptors left")
		}
		if time.Now().After(end) {
			return fmt.Errorf("%d connections are still held %v after the clients that used up all descriptors have hung up", clientSockets(false), e2eLimit)
		}
		time.Sleep(5 * time.Millisecond)
	}
	return nil
}

// heldSockets counts sockets on the program's side of client connections.
func heldSockets() int { return clientSockets(true) }

func clientSockets(accepted bool) int {
	n := 0
	for _, f := range []string{"/proc/self/net/tcp", "/proc/self/net/tcp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			// established, or closed by the client only
			if len(w) > 9 && strings.HasSuffix(w[1], ":233E") && (w[3] == "01" || w[3] == "08") && (w[9] != "0" || !accepted) {
				n++
			}
		}
	}
	return n
}

func c24Dead(e *e2e) string {
	if !e.g.alive() {
		return "the program ended: " + clip(firstPanic(e.g.err.String()), 1500)
	}
	return "the program is running"
}

func c24Do(e *e2e, a c24Act, keep func(io.Closer), salt int) error {
	tcp := func() (net.Conn, error) {
		c, err := net.DialTimeout("tcp", proxyAddr, e2eLimit)
		if err != nil {
			return nil, fmt.Errorf("cannot connect: %v", err)
		}
		keep(c)
		return c, nil
	}
	end := func(c io.Closer) {
		if a.Drop {
			c.Close()
		}
	}
	switch a.Kind {
	case "silent", "version", "garbage":
		c, err := tcp()
		if err != nil {
			return err
		}
		if a.Kind == "version" {
			_, _ = c.Write([]byte("SSH-2.0-stalled\r\n"))
		}
		if a.Kind == "garbage" {
			_, _ = c.Write(a.Data)
		}
		end(c)
		return nil
	case "cut":
		c, err := tcp()
		if err != nil {
			return err
		}
		cc := &cutConn{Conn: c, left: a.Cut, drop: a.Drop, hang: make(chan struct{})}
		in := make(chan struct{})
		go func() {
			sc, _, _, err := ssh.NewClientConn(cc, proxyAddr, e.login())
			if err == nil {
				keep(sc)
			}
			close(in)
		}()
		select {
		case <-cc.hang:
		case <-in:
		case <-time.After(e2eLimit):
			return fmt.Errorf("a client that has not stalled is not served")
		}
		return nil
	case "badauth":
		cfg := e.login()
		cfg.Auth = []ssh.AuthMethod{ssh.Password("wrong" + e.pass)}
		cl, err := dialSSH(cfg)
		if err == nil {
			cl.Close()
			return fmt.Errorf("a wrong password was accepted")
		}
		return nil
	}
	// everybody else logs in
	c, err := tcp()
	if err != nil {
		return err
	}
	cc := &cutConn{Conn: c, left: 1 << 60, drop: a.Drop, hang: make(chan struct{})}
	_ = c.SetDeadline(time.Now().Add(e2eLimit))
	sc, chans, reqs, err := ssh.NewClientConn(cc, proxyAddr, e.login())
	if err != nil {
		return fmt.Errorf("cannot log in: %v", err)
	}
	_ = c.SetDeadline(time.Time{})
	cl := ssh.NewClient(sc, chans, reqs)
	keep(cl)
	open := func() (ssh.Channel, error) {
		var ch ssh.Channel
		err := timed("opening a channel", func() error {
			var rq <-chan *ssh.Request
			var err error
			ch, rq, err = cl.OpenChannel("session", nil)
			if err == nil {
				go ssh.DiscardRequests(rq)
			}
			return err
		})
		return ch, err
	}
	defer end(cl)
	switch a.Kind {
	case "loggedin":
	case "openrst":
		// asks for channels and is gone before it can be told
		for i := 0; i < 12; i++ {
			go func() {
				if ch, rq, err := cl.OpenChannel("session", nil); err == nil {
					go ssh.DiscardRequests(rq)
					_, _ = ch.SendRequest("subsystem", false, []byte("\x00\x00\x00\x04sftp"))
				}
			}()
		}
		if t, ok := c.(*net.TCPConn); ok {
			_ = t.SetLinger(0)
		}
		if salt%3 > 0 {
			time.Sleep(time.Duration(salt%40) * 20 * time.Microsecond)
		}
		c.Close()
	case "chantype":
		return timed("opening a channel", func() error {
			ch, rq, err := cl.OpenChannel(a.Name, a.Data)
			if err == nil {
				go ssh.DiscardRequests(rq)
				ch.Close()
				return fmt.Errorf("a channel of type %q was accepted", a.Name)
			}
			if _, ok := err.(*ssh.OpenChannelError); !ok {
				return fmt.Errorf("a channel of type %q was not refused, but: %v", a.Name, err)
			}
			return nil
		})
	case "chanreq", "subsystem":
		ch, err := open()
		if err != nil {
			return err
		}
		name := a.Name
		if a.Kind == "subsystem" {
			name = "subsystem"
		}
		for i := 0; i <= a.Times; i++ {
			ok := false
			err = timed("a channel request", func() error {
				var err error
				ok, err = ch.SendRequest(name, a.Reply, a.Data)
				return err
			})
			if err != nil {
				return fmt.Errorf("request %q with payload %.80q was not answered: %v", name, a.Data, err)
			}
			if ok {
				return fmt.Errorf("request %q with payload %.80q was accepted", name, a.Data)
			}
		}
		if a.Then {
			s := &session{ssh: cl}
			err = timed("a channel request", func() error {
				ok, err := ch.SendRequest("subsystem", true, []byte("\x00\x00\x00\x04sftp"))
				if err == nil && !ok {
					err = fmt.Errorf("refused")
				}
				if err == nil {
					s.c, err = sftp.NewClientPipe(ch, ch)
				}
				return err
			})
			if err != nil {
				return fmt.Errorf("a session that first sent request %q (reply wanted: %v) with payload %.80q %d times cannot ask for sftp: %v", name, a.Reply, a.Data, a.Times+1, err)
			}
			return e.look(s, salt)
		}
	case "global":
		for i := 0; i <= a.Times; i++ {
			err := timed("a global request", func() error {
				ok, _, err := cl.SendRequest(a.Name, a.Reply, a.Data)
				if err != nil {
					return fmt.Errorf("global request %q (%d bytes) was not answered: %v", a.Name, len(a.Data), err)
				}
				if ok {
					return fmt.Errorf("global request %q was accepted", a.Name)
				}
				return nil
			})
			if err != nil {
				return err
			}
		}
		if a.Then {
			s, err := e.connectOn(&session{ssh: cl})
			if err != nil {
				return fmt.Errorf("after %d global requests %q of %d bytes: %v", a.Times+1, a.Name, len(a.Data), err)
			}
			return e.look(s, salt)
		}
	case "manychans":
		for i := 0; i < 12+a.Times; i++ {
			ch, err := open()
			if err != nil {
				return err
			}
			if a.Drop {
				ch.Close()
			}
		}
		s, err := e.connectOn(&session{ssh: cl})
		if err != nil {
			return err
		}
		return e.look(s, salt)
	case "nosub", "rawdata":
		ch, err := open()
		if err != nil {
			return err
		}
		if a.Kind == "rawdata" {
			// the encoding must stay valid: a plausible, never finished packet
			_, _ = ch.Write(append([]byte{0, 0, 2, 0}, a.Data...))
		}
		if a.Drop {
			ch.Close()
		}
	case "sftpdrop", "sftpstall", "sftpcut", "nofile", "write", "openleft":
		s, err := e.connectOn(&session{ssh: cl})
		if err != nil {
			return err
		}
		switch a.Kind {
		case "nofile":
			return timed("a request", func() error {
				for _, p := range []string{"/nope", "/nope/a/b", "", "relative", "/a/x", "/d/../../..", strings.Repeat("/q", 300), "/" + strings.Repeat("n", 3000)} {
					if _, err := s.c.ReadDir(p); err == nil && !strings.HasSuffix(p, "..") && p != "" {
						return fmt.Errorf("listing %q succeeded", p)
					}
					if f, err := s.c.Open(p); err == nil {
						f.Close()
					}
				}
				return nil
			})
		case "write":
			return timed("a request", func() error {
				if f, err := s.c.OpenFile("/a", os.O_RDWR|os.O_TRUNC); err == nil {
					if _, err := f.Write([]byte("x")); err == nil {
						return fmt.Errorf("a write succeeded")
					}
					f.Close()
				}
				if s.c.Remove("/a") == nil || s.c.Mkdir("/m") == nil {
					return fmt.Errorf("a change succeeded")
				}
				return nil
			})
		case "openleft":
			for i := 0; i < 5; i++ {
				if err := timed("open", func() error { _, err := s.c.Open("/a"); return err }); err != nil {
					return err
				}
			}
		case "sftpdrop", "sftpstall":
			// asks for a lot and is gone, or no longer reads
			for i := 0; i < 4; i++ {
				go func() {
					f, err := s.c.Open("/big")
					if err == nil {
						_, _ = io.Copy(slowWriter{a.Drop}, f)
					}
				}()
			}
			time.Sleep(time.Duration(salt%7) * time.Millisecond)
		case "sftpcut":
			cc.cut(a.Cut)
			go func() {
				for i := 0; i < 50; i++ {
					_, _ = s.c.ReadDir("/")
				}
			}()
			select {
			case <-cc.hang:
			case <-time.After(2 * time.Second):
			}
		}
	}
	return nil
}

type slowWriter struct{ fast bool }

func (w slowWriter) Write(b []byte) (int, error) {
	if !w.fast {
		select {} // never reads on
	}
	return len(b), nil
}

var _ = sftp.ErrSshFxOk
