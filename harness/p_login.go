//go:build all || c20

package main

// C20: logging in to the proxy.

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
)

type c20Try struct {
	Kind string `json:"kind"` // password, kbd, none, ownkey, otherkey
	Val  string `json:"val,omitempty"`
}

type c20Conn struct {
	User  string   `json:"user"`
	Tries []c20Try `json:"tries"`
	Par   bool     `json:"par,omitempty"` // together with the next one
}

type c20Case struct {
	Vol   VolSpec   `json:"vol"`
	User  string    `json:"user"`
	Pass  string    `json:"pass"`
	Conns []c20Conn `json:"conns,omitempty"`
	// incomplete configurations
	Lack map[string]string `json:"lack,omitempty"` // field -> "missing", "empty", "null", for files also "nofile", "dir"
}

var c20Fields = []string{"ProxyUser", "ProxyPassword", "KnownHostsPath", "Addr", "FileRoot", "User", "PrivateKeyPath"}

func genCred(t *rapid.T, l string) string {
	switch rapid.IntRange(0, 9).Draw(t, l+"/k") {
	case 0:
		return rapid.SampledFrom([]string{"a", "A", " ", "root", "user ", " user", "ü", "u\u0308", "x\x00y", "\x00", "a\nb", "\t", "%s", "null", "日本語", "ſ", "K", "\u212a", "0", "00", "1e3", "true"}).Draw(t, l)
	case 1:
		return strings.Repeat(rapid.SampledFrom([]string{"k", "pw", "é"}).Draw(t, l+"/r"), rapid.SampledFrom([]int{7, 8, 16, 32, 36, 64, 72, 73, 128, 255, 256, 300, 1100}).Draw(t, l+"/n"))
	case 2:
		return rapid.StringN(1, 20, 60).Draw(t, l)
	}
	return rapid.StringMatching(`[a-zA-Z0-9]{1,14}`).Draw(t, l)
}

// nearMiss derives another string from s; the result may equal s.
func nearMiss(t *rapid.T, l, s, other string) string {
	r := []rune(s)
	i := rapid.IntRange(0, len(r)-1).Draw(t, l+"/i")
	switch rapid.IntRange(0, 20).Draw(t, l+"/miss") {
	case 0:
		return ""
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	case 3:
		return s + " "
	case 4:
		return " " + s
	case 5:
		return s + "\n"
	case 6:
		return s + "\x00"
	case 7:
		return s[:len(s)-1]
	case 8:
		return s[1:]
	case 9:
		return s + s
	case 10:
		return s + "x"
	case 11:
		r[i]++
		return string(r)
	case 12:
		return string(r[:i]) + string(r[len(r)-(len(r)-i-1):])
	case 13:
		return other
	case 14:
		return s + other
	case 15:
		return other + s
	case 16:
		return strings.TrimSpace(s)
	case 17: // swap neighbours
		if i+1 < len(r) {
			r[i], r[i+1] = r[i+1], r[i]
		}
		return string(r)
	case 18:
		return string(r[:i])
	case 19:
		f := rapid.SampledFrom([]string{"%s@localhost", "%s@127.0.0.1", "DOMAIN\\%s", "%s/x", "%s:x", "x:%s", "%s*", "%s%%", "\"%s\"", "'%s'", "%s\r", "%s\t", "\ufeff%s", "%s#x", "%s,x", "%s;x", "\x00%s", "%s\x7f", "%s\x08x"}).Draw(t, l+"/form")
		return fmt.Sprintf(f, s)
	}
	return genCred(t, l+"/any")
}

func init() {
	reg(Prop{
		ID: "C20", Quick: 2000, Thorough: 40000, NetNS: true, Recycle: 60, CaseTimeout: 5 * time.Minute, Fixed: c20Fixed,
		Rule:  "a case is a running proxy with a generated user and password, and 1-8 connections, one after the other or at once, each with 1-4 attempts: right and near-miss passwords for right and near-miss users, empty ones, no authentication, keyboard-interactive answers, public keys including the proxy's own; or a configuration from which required values are missing; non-trivial = some attempt had to be refused, or the configuration is incomplete; oracle: byte equality of user and password; a refused client causes no traffic at the remote and gets no channel",
		Setup: "no more than four attempts per connection (the SSH library hangs up after six)",
	}, func(t *rapid.T, tier Tier) c20Case {
		c := c20Case{User: genCred(t, "user"), Pass: genCred(t, "pass")}
		if rapid.IntRange(0, 9).Draw(t, "same") == 0 {
			c.Pass = c.User
		}
		v := genVol(t)
		v.Pw = genTyped(t, "vpw")
		v.Tree = []TNode{{Name: []byte("a"), Size: 5000}, {Name: []byte("d"), Dir: true}}
		c.Vol = v
		if rapid.IntRange(0, 4).Draw(t, "kind") == 0 {
			c.Lack = map[string]string{}
			for i, n := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 3, 7}).Draw(t, "nlack"); i < n; i++ {
				f := rapid.SampledFrom(c20Fields).Draw(t, fmt.Sprint("lack", i))
				ways := []string{"missing", "empty", "null"}
				if strings.HasSuffix(f, "Path") {
					ways = append(ways, "nofile", "dir")
				}
				c.Lack[f] = rapid.SampledFrom(ways).Draw(t, fmt.Sprint("way", i))
			}
			return c
		}
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "nconns"); i < n; i++ {
			l := fmt.Sprint("c", i)
			k := c20Conn{User: c.User, Par: rapid.Bool().Draw(t, l+"/par")}
			if rapid.IntRange(0, 3).Draw(t, l+"/u") == 0 {
				k.User = nearMiss(t, l+"/user", c.User, c.Pass)
			}
			for j, m := 0, rapid.IntRange(1, 4).Draw(t, l+"/n"); j < m; j++ {
				lj := fmt.Sprintf("%s.%d", l, j)
				q := c20Try{Kind: rapid.SampledFrom([]string{"password", "password", "password", "password", "password", "kbd", "none", "ownkey", "otherkey"}).Draw(t, lj)}
				if q.Kind == "password" || q.Kind == "kbd" {
					q.Val = c.Pass
					if rapid.IntRange(0, 3).Draw(t, lj+"/r") != 0 {
						q.Val = nearMiss(t, lj+"/pw", c.Pass, c.User)
					}
				}
				k.Tries = append(k.Tries, q)
			}
			c.Conns = append(c.Conns, k)
		}
		return c
	}, c20Exec)
}

// c20Fixed has long histories: many refusals before a right login, many right
// logins before refusals.
func c20Fixed(tier Tier, seed uint64) []any {
	n := 130
	if tier == "thorough" {
		n = 1200
	}
	var out []any
	for k := 0; k < 4; k++ {
		c := c20Case{User: "someone", Pass: "a Pass-phrase 17", Vol: VolSpec{Flags: VolFlags{HKDF: true, Raw64: true}, Seed: seed*17 + uint64(k), Pw: []byte("pw"), Root: "/vol", Workers: 4, Tree: []TNode{{Name: []byte("a"), Size: 5000}}}}
		try := func(user string, par bool, pw ...string) {
			q := c20Conn{User: user, Par: par}
			for _, p := range pw {
				q.Tries = append(q.Tries, c20Try{Kind: "password", Val: p})
			}
			c.Conns = append(c.Conns, q)
		}
		wrong := func(n int) {
			for i := 0; i < n; i++ {
				u := c.User
				if k == 2 && i%2 == 0 {
					u = fmt.Sprint("nobody", i)
				}
				par := i%10 != 9 && i != n-1
				switch i % 4 {
				case 0:
					try(u, par, c.Pass+fmt.Sprint(i), "", c.Pass[:i%len(c.Pass)])
				default:
					try(u, par, fmt.Sprintf("guess %d", i))
				}
			}
		}
		right := func(n int) {
			for i := 0; i < n; i++ {
				try(c.User, i%5 != 4 && i != n-1, c.Pass)
			}
		}
		switch k {
		case 0:
			wrong(n)
			right(3)
			wrong(20)
			right(1)
		case 3:
			// thousands of passwords
			for i := 0; i < 4*n; i++ {
				g := func(j int) string { return fmt.Sprintf("guess %d", 4*i+j) }
				try(c.User, i%40 != 39 && i != 4*n-1, g(0), g(1), g(2), g(3))
			}
			wrong(10)
			right(2)
			wrong(10)
		case 1:
			right(n / 2)
			wrong(12)
			right(2)
		case 2:
			for i := 0; i < 6; i++ {
				wrong(n / 8)
				right(i)
			}
		}
		out = append(out, c)
	}
	return out
}

func c20Exec(c c20Case, rec *Rec) error {
	e, err := newE2E(c.Vol, c.Vol.Seed, c.User, c.Pass, nil)
	if err != nil {
		return err
	}
	defer e.close()
	if c.Lack != nil {
		rec.NonTrivial()
		rec.Label("incomplete configuration")
		for f, way := range c.Lack {
			m := e.cfg
			if f == "Addr" || f == "FileRoot" || f == "User" || f == "PrivateKeyPath" {
				m = e.remoteCfg()
			}
			switch way {
			case "missing":
				delete(m, f)
			case "empty":
				m[f] = ""
			case "null":
				m[f] = nil
			case "nofile":
				m[f] = e.path("does-not-exist")
			case "dir":
				m[f] = e.dir
			}
		}
		up, err := e.start()
		if err != nil {
			return err
		}
		if up {
			return fmt.Errorf("the program listens with an incomplete configuration: %v", c.Lack)
		}
		if e.g.cmd.ProcessState.ExitCode() == 0 {
			return fmt.Errorf("the program ended without reporting the incomplete configuration %v", c.Lack)
		}
		if s := e.g.err.String(); strings.Contains(s, "panic:") || strings.Contains(s, "goroutine ") {
			return fmt.Errorf("the program crashed on an incomplete configuration %v: %s", c.Lack, firstPanic(s))
		}
		return nil
	}
	if err := e.mustStart(); err != nil {
		return err
	}
	before := len(e.r.requests())
	conns := e.r.connsMade()
	good := false
	var gmu sync.Mutex
	verdict := func(i int) error {
		q := c.Conns[i]
		want := false
		refused := false
		var auth []ssh.AuthMethod
		// consecutive attempts of one kind are one method of the client
		var pws, kbds []string
		var keys []ssh.Signer
		for _, a := range q.Tries {
			switch a.Kind {
			case "password":
				pws = append(pws, a.Val)
				if q.User == c.User && a.Val == c.Pass {
					want = true
				} else if !want {
					refused = true
				}
			case "kbd":
				kbds = append(kbds, a.Val)
				refused = true
			case "ownkey":
				keys = append(keys, e.key)
				refused = true
			case "otherkey":
				keys = append(keys, signerFrom(uint64(i)+c.Vol.Seed+77))
				refused = true
			case "none":
				refused = true
			}
		}
		if len(keys) > 0 {
			auth = append(auth, ssh.PublicKeys(keys...))
		}
		kbdRight := false
		if len(kbds) > 0 {
			n := 0
			auth = append(auth, ssh.RetryableAuthMethod(ssh.KeyboardInteractive(func(user, instruction string, questions []string, echos []bool) ([]string, error) {
				v := kbds[min(n, len(kbds)-1)]
				n++
				if q.User == c.User && v == c.Pass {
					kbdRight = true
				}
				out := make([]string, len(questions))
				for i := range out {
					out[i] = v
				}
				return out, nil
			}), len(kbds)))
		}
		sent := 0
		if len(pws) > 0 {
			auth = append(auth, ssh.RetryableAuthMethod(ssh.PasswordCallback(func() (string, error) {
				if sent >= len(pws) {
					return "", errors.New("no more")
				}
				sent++
				return pws[sent-1], nil
			}), len(pws)))
		}
		hostOK := false
		cfg := &ssh.ClientConfig{User: q.User, Auth: auth, Timeout: e2eLimit, HostKeyCallback: func(h string, r net.Addr, k ssh.PublicKey) error {
			hostOK = bytes.Equal(k.Marshal(), e.key.PublicKey().Marshal())
			return nil
		}}
		cl, err := dialSSH(cfg)
		if cl != nil {
			defer cl.Close()
		}
		if refused || !want {
			rec.NonTrivial()
			rec.Label("attempt to be refused")
		}
		in := err == nil
		if in && !want && !kbdRight {
			return fmt.Errorf("user %q is %q, password %q: connection %d got in as %q with %+v", "ProxyUser", c.User, c.Pass, i, q.User, q.Tries)
		}
		if in && want && sent > 0 && pws[sent-1] != c.Pass && !kbdRight {
			return fmt.Errorf("configured password %q: connection %d got in with %q", c.Pass, i, pws[sent-1])
		}
		if in && sent == 0 && !kbdRight {
			return fmt.Errorf("connection %d got in without giving a password: %+v", i, q.Tries)
		}
		if !in && want {
			return fmt.Errorf("configured user %q password %q: connection %d was refused although it gave both, %+v: %v", c.User, c.Pass, i, q.Tries, err)
		}
		if !hostOK {
			return fmt.Errorf("the proxy does not prove the configured key")
		}
		if !in {
			return nil
		}
		rec.Label("logged in")
		gmu.Lock()
		good = true
		gmu.Unlock()
		s := &session{ssh: cl}
		s2, err := e.connectOn(s)
		if err != nil {
			return err
		}
		return e.look(s2, i)
	}
	for i := 0; i < len(c.Conns); {
		j := i
		for j+1 < len(c.Conns) && c.Conns[j].Par {
			j++
		}
		if j == i {
			was := good
			if err := verdict(i); err != nil {
				return err
			}
			if !good && !was {
				if n := len(e.r.requests()); n != before || e.r.connsMade() != conns {
					return fmt.Errorf("a client that was refused made the proxy talk to the remote: %d requests", n-before)
				}
			}
		} else {
			rec.Label("simultaneous attempts")
			errs := make([]error, j-i+1)
			var wg sync.WaitGroup
			for k := i; k <= j; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					errs[k-i] = verdict(k)
				}()
			}
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
		}
		i = j + 1
	}
	s, err := e.connect()
	if err != nil {
		return fmt.Errorf("after %d connections: %v", len(c.Conns), err)
	}
	defer s.close()
	return e.look(s, 0)
}
