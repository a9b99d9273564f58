//go:build all || c27

package main

// C27: the proxy only talks to a remote that proves a known host key.

import (
	"encoding/base64"
	"fmt"
	"net"
	"strings"
	"time"

	"golang.org/x/crypto/ssh"
	"golang.org/x/crypto/ssh/knownhosts"
	"pgregory.net/rapid"
)

type c27Line struct {
	Kind   string `json:"kind"`             // exact, hashed, list, wild, otherport, otherhost, noport, negated, comment, blank, broken
	Key    int    `json:"key"`              // 0 = the remote's, else another
	Type   string `json:"type"`             // ed25519, ecdsa (of another key)
	Marker string `json:"marker,omitempty"` // @revoked, @cert-authority
}

type c27Step struct {
	Kind string `json:"kind"`          // look, impostor, genuine
	Key  int    `json:"key,omitempty"` // the impostor's
	Type string `json:"type,omitempty"`
	Kill bool   `json:"kill,omitempty"` // existing connections are dropped
	Busy int    `json:"busy,omitempty"` // clients at once
	Fail string `json:"fail,omitempty"` // how connections fail before the impostor or the genuine remote answers
	N    int    `json:"n,omitempty"`    // so many of them
}

type c27Case struct {
	Vol      VolSpec   `json:"vol"`
	Host     string    `json:"host"` // type of the remote's key
	Lines    []c27Line `json:"lines"`
	Form     string    `json:"form,omitempty"`     // how the remote is named: its address, "name", "std" (port 22), "namestd", "v6"
	Impostor bool      `json:"impostor,omitempty"` // an impostor is there from the start
	Steps    []c27Step `json:"steps,omitempty"`
}

func c27Key(seed uint64, n int, typ string) ssh.Signer {
	if typ == "ecdsa" {
		s, _ := ecKey(seed+uint64(n)*7919+5, nil)
		return s
	}
	return signerFrom(seed + uint64(n)*7919 + 5)
}

func init() {
	reg(Prop{
		ID: "C27", Quick: 2000, Thorough: 20000, NetNS: true, Recycle: 60, CaseTimeout: 5 * time.Minute,
		Rule:  "a case is a known-hosts file of 0-6 lines (the remote's or other keys of two types, for its or other addresses, exact, hashed, in lists, with wildcards, revoked, damaged), a remote named by address or name, at the standard or another port, with or without the listed key, and for accepted ones a history of requests, dropped connections, connections that fail in the handshake, and an impostor with another key taking the remote's place and going away again; non-trivial = the remote must be refused, or an impostor was met; oracle: a predicate over the lines, the authentication attempts and requests the impostor saw, and the plaintext model",
		Setup: "where several keys of one type are listed for the address, or the key only as an authority, both verdicts are accepted",
	}, func(t *rapid.T, tier Tier) c27Case {
		v := genVol(t)
		v.Pw = genTyped(t, "vpw")
		for i := 0; i < 24; i++ {
			v.Tree = append(v.Tree, TNode{Name: []byte(fmt.Sprint("f", i)), Size: 10 + i})
		}
		c := c27Case{Vol: v, Host: rapid.SampledFrom([]string{"ed25519", "ecdsa"}).Draw(t, "host"), Form: rapid.SampledFrom([]string{"", "", "", "name", "std", "std", "namestd", "v6"}).Draw(t, "form")}
		types := []string{"ed25519", "ecdsa"}
		line := func(l string) c27Line {
			return c27Line{
				Kind:   rapid.SampledFrom([]string{"exact", "exact", "hashed", "list", "wild", "otherport", "otherhost", "noport", "negated", "comment", "blank"}).Draw(t, l),
				Key:    rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, l+"/key"),
				Type:   rapid.SampledFrom(types).Draw(t, l+"/type"),
				Marker: rapid.SampledFrom([]string{"", "", "", "", "", "", "@revoked", "@cert-authority"}).Draw(t, l+"/m"),
			}
		}
		for i, n := 0, rapid.IntRange(0, 5).Draw(t, "nlines"); i < n; i++ {
			c.Lines = append(c.Lines, line(fmt.Sprint("l", i)))
		}
		switch rapid.IntRange(0, 5).Draw(t, "good") {
		case 0, 1, 2: // the right line somewhere
			at := rapid.IntRange(0, len(c.Lines)).Draw(t, "at")
			c.Lines = append(c.Lines[:at:at], append([]c27Line{{Kind: rapid.SampledFrom([]string{"exact", "hashed", "list"}).Draw(t, "goodkind"), Type: c.Host}}, c.Lines[at:]...)...)
		case 3:
			if rapid.Bool().Draw(t, "br") {
				c.Lines = append(c.Lines, c27Line{Kind: "broken"})
			}
		}
		c.Impostor = rapid.IntRange(0, 5).Draw(t, "impostor") == 0
		for i, n := 0, rapid.IntRange(0, 6).Draw(t, "nsteps"); i < n; i++ {
			l := fmt.Sprint("s", i)
			c.Steps = append(c.Steps, c27Step{
				Kind: rapid.SampledFrom([]string{"look", "impostor", "impostor", "genuine"}).Draw(t, l),
				Key:  rapid.IntRange(1, 3).Draw(t, l+"/key"), Type: rapid.SampledFrom(types).Draw(t, l+"/type"),
				Kill: rapid.IntRange(0, 3).Draw(t, l+"/kill") != 0, Busy: rapid.SampledFrom([]int{1, 1, 4, 10}).Draw(t, l+"/busy"),
			})
			if s := &c.Steps[len(c.Steps)-1]; rapid.IntRange(0, 2).Draw(t, l+"/fails") == 0 {
				s.Fail = rapid.SampledFrom([]string{"version", "kexgarbage", "nothing", "banner", "reset", "reset"}).Draw(t, l+"/fail")
				s.N = rapid.IntRange(1, 6).Draw(t, l+"/nfail")
			}
		}
		return c
	}, c27Exec)
}

func c27Exec(c c27Case, rec *Rec) error {
	e, err := newE2E(c.Vol, c.Vol.Seed, "u", "p", nil)
	if err != nil {
		return err
	}
	defer e.close()
	genuine := c27Key(c.Vol.Seed, 0, c.Host)
	e.r.mu.Lock()
	old := e.r.cfg
	e.r.cfg = &ssh.ServerConfig{PublicKeyCallback: old.PublicKeyCallback, PasswordCallback: old.PasswordCallback, MaxAuthTries: 6}
	e.r.cfg.AddHostKey(genuine)
	e.r.mu.Unlock()
	var impostorSaw []string

	// the known-hosts file, and what it means for the key the remote has
	at, wild := e.r.addr, "127.0.*"
	if _, port, _ := net.SplitHostPort(e.r.addr); c.Form != "" {
		local := false
		if as, err := net.LookupHost("localhost"); err == nil {
			for _, a := range as {
				local = local || a == "127.0.0.1"
			}
		}
		switch {
		case c.Form == "name" && local:
			at, wild = "localhost:"+port, "l?cal*"
		case c.Form == "std" && e.r.also("127.0.0.1:22"):
			at = "127.0.0.1:22"
		case c.Form == "namestd" && local && e.r.also("127.0.0.1:22"):
			at, wild = "localhost:22", "l?cal*"
		case c.Form == "v6" && e.r.also("[::1]:"+port):
			at, wild = "[::1]:"+port, "::?"
		}
		if at != e.r.addr {
			rec.Label("named " + c.Form)
		}
	}
	e.remoteCfg()["Addr"] = at
	host, port, _ := net.SplitHostPort(at)
	addr := knownhosts.Normalize(at)
	portOf := func(h string) string {
		if port == "22" {
			return h
		}
		return fmt.Sprintf("[%s]:%s", h, port)
	}
	var b strings.Builder
	listed, revoked, broken, unsure := false, false, false, false
	firstOfType := true
	known := map[string]bool{}
	for i, l := range c.Lines {
		typ := l.Type
		if l.Key == 0 {
			typ = c.Host
		}
		key := c27Key(c.Vol.Seed, l.Key, typ).PublicKey()
		name, match := "", false
		switch l.Kind {
		case "exact":
			name, match = addr, true
		case "hashed":
			name, match = knownhosts.HashHostname(addr), true
		case "list":
			name, match = "example.org,"+addr+",[10.1.1.1]:7", true
		case "wild":
			name, match = portOf(wild), true
		case "otherport":
			name = fmt.Sprintf("[%s]:%d", host, 1)
		case "otherhost":
			name = portOf("10.0.0.1")
		case "noport":
			name, match = host, port == "22"
		case "negated":
			name = "!" + addr + "," + portOf(wild)
		case "comment":
			fmt.Fprintf(&b, "# %s %s %s\n", addr, key.Type(), base64.StdEncoding.EncodeToString(key.Marshal()))
			continue
		case "blank":
			b.WriteString("  \n")
			continue
		case "broken":
			broken = true
			fmt.Fprintf(&b, "%s ssh-ed25519 AAAA%d\n", addr, i)
			continue
		}
		if l.Marker != "" {
			b.WriteString(l.Marker + " ")
		}
		fmt.Fprintf(&b, "%s %s %s comment\n", name, key.Type(), base64.StdEncoding.EncodeToString(key.Marshal()))
		if l.Marker == "@revoked" {
			if l.Key == 0 {
				revoked = true
			}
			continue
		}
		if !match {
			continue
		}
		known[fmt.Sprint(l.Key, typ)] = true
		if l.Key == 0 {
			if l.Marker == "@cert-authority" || !firstOfType {
				unsure = true
			} else {
				listed = true
			}
		}
		if typ == c.Host {
			firstOfType = false
		}
	}
	e.knownHosts = b.String()
	mustRefuse := broken || revoked || !listed && !unsure
	mustAccept := !broken && !revoked && listed
	restore := func() {}
	if c.Impostor {
		restore = e.r.impersonate(c27Key(c.Vol.Seed, 9, c.Host), &impostorSaw)
		mustRefuse, mustAccept = true, false
	}
	up, err := e.start()
	if err != nil {
		return err
	}
	saw := func() []string {
		e.r.mu.Lock()
		defer e.r.mu.Unlock()
		return append([]string{}, impostorSaw...)
	}
	desc := fmt.Sprintf("remote's key %s, known hosts %+v, impostor %v", c.Host, c.Lines, c.Impostor)
	if mustRefuse {
		rec.NonTrivial()
		rec.Label("remote to be refused")
		e.r.mu.Lock()
		auths := append([]string{}, e.r.auths...)
		e.r.mu.Unlock()
		if len(auths) > 0 || len(saw()) > 0 {
			return fmt.Errorf("%s: the proxy authenticated to a remote with an unknown, mismatching or revoked key: %v %v", desc, auths, saw())
		}
		if up {
			return fmt.Errorf("%s: the proxy listens although the remote's key is not known", desc)
		}
		if e.g.cmd.ProcessState.ExitCode() == 0 {
			return fmt.Errorf("%s: the program ended without an error", desc)
		}
		restore()
		return nil
	}
	if mustAccept && !up {
		return fmt.Errorf("%s: the remote was refused: %s", desc, clip(e.said(), 800))
	}
	if !up {
		rec.Label("either")
		return nil
	}
	rec.Label("remote accepted")
	away := false // an impostor is in place
	ss, err := e.connect()
	if err != nil {
		return err
	}
	defer ss.close()
	n := 0
	look := func(busy int) []error {
		errs := make([]error, busy)
		done := make(chan int, busy)
		for i := 0; i < busy; i++ {
			n++
			go func(k int) {
				errs[i] = e.look(ss, 3*k)
				done <- i
			}(n)
		}
		for i := 0; i < busy; i++ {
			<-done
		}
		return errs
	}
	for si, s := range c.Steps {
		switch s.Kind {
		case "impostor":
			restore()
			k := s.Key
			if known[fmt.Sprint(k, s.Type)] {
				k += 10 // not one that is listed for the remote
			}
			restore = e.r.impersonate(c27Key(c.Vol.Seed, k, s.Type), &impostorSaw)
			away = true
		case "genuine":
			restore()
			restore = func() {}
			away = false
		}
		e.r.spoilNext(s.N, s.Fail)
		if s.Kill {
			e.r.killAll()
		}
		if s.Kind == "impostor" {
			before := e.r.connsMade()
			for _, err := range look(s.Busy) {
				// an answer from an existing connection or from memory is
				// fine; wrong data is not
				if err != nil && (strings.Contains(err.Error(), "first difference") || strings.Contains(err.Error(), "did not end") || strings.Contains(err.Error(), "listing has")) {
					return fmt.Errorf("step %d: %v", si, err)
				}
			}
			if e.r.connsMade() > before {
				rec.NonTrivial()
				rec.Label("impostor met")
			}
			if s := saw(); len(s) > 0 {
				return fmt.Errorf("step %d: the proxy authenticated to an impostor: %v", si, s)
			}
			continue
		}
		if away {
			continue
		}
		// the genuine remote answers again, after the dead connections have been noticed
		var last error
		end := time.Now().Add(e2eLimit)
		for {
			last = nil
			for _, err := range look(1) {
				if err != nil {
					last = err
				}
			}
			if last == nil || time.Now().After(end) {
				break
			}
			time.Sleep(time.Millisecond)
		}
		if last != nil {
			return fmt.Errorf("step %d: the genuine remote is not used any more: %v", si, last)
		}
	}
	restore()
	e.r.mu.Lock()
	defer e.r.mu.Unlock()
	for _, a := range e.r.auths {
		if a != "publickey:"+e.ruser {
			return fmt.Errorf("the remote was offered %q instead of the configured user's key", a)
		}
	}
	return nil
}
