//go:build all || c28

package main

// C28: the program as a whole.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
)

type c28Op struct {
	Kind string `json:"k"` // read, range, list, stat, missing, change, walk, lstat
	Pick int    `json:"p"`
	Off  int    `json:"o,omitempty"`
	Len  int    `json:"n,omitempty"`
	Sp   int    `json:"sp,omitempty"`
}

type c28Client struct {
	Conn int     `json:"conn"`          // clients with the same number share a connection
	Via  string  `json:"via,omitempty"` // the address of this machine it connects to
	Ops  []c28Op `json:"ops"`
	Par  bool    `json:"par,omitempty"`  // runs together with the next one
	End  string  `json:"end,omitempty"`  // how it leaves: close, drop, stay
	Wait int     `json:"wait,omitempty"` // seconds it does nothing between its first and second request
}

type c28Case struct {
	Vol     VolSpec     `json:"vol"`
	Wide    int         `json:"wide,omitempty"`
	Decoy   bool        `json:"decoy,omitempty"` // another volume beside this one on the remote
	KeyPw   []byte      `json:"keypw,omitempty"`
	KeyTry  [][]byte    `json:"keytry,omitempty"`  // wrong passphrases typed before the right one
	VolTry  []byte      `json:"voltry,omitempty"`  // typed instead of the volume's passphrase
	VolNone bool        `json:"volnone,omitempty"` // an empty line instead
	Dbg     bool        `json:"dbg,omitempty"`
	Layout  int         `json:"layout,omitempty"` // spelling of the configuration file
	Clients []c28Client `json:"clients,omitempty"`
	Cut     int         `json:"cut,omitempty"` // after this many clients the remote drops all connections
}

func init() {
	reg(Prop{
		ID: "C28", Quick: 1600, Thorough: 20000, NetNS: true, Recycle: 40, CaseTimeout: 8 * time.Minute, ShrinkTime: 40 * time.Second, Fixed: c28Fixed,
		Rule:  "a case is a start of the program (private key encrypted or not, wrong passphrases before the right one or instead of it, the root of the volume in various spellings, other volumes beside it) and 1-8 clients over their own or shared connections, one after the other or at once, each reading files in whole or in parts, listing, querying, walking the tree, asking for missing paths and trying to change things, with the remote dropping its connections in between, and fixed cases with quiet periods, hundreds of clients, hundreds of requests in a session, and large files; non-trivial = three operations were answered, or the start had to fail; oracle: the plaintext model, and whether the passphrases are the right ones",
		Setup: "a request that meets a connection the remote has dropped may fail",
	}, func(t *rapid.T, tier Tier) c28Case {
		v := genVol(t)
		v.Pw = genTyped(t, "vpw")
		v.Tree = genTree(t, treeOpt{depth: 3, breadth: 4, dirBias: 4, name: genName, size: func(t *rapid.T, l string) int { return genSize(t, l, 400000) }})
		c := c28Case{Vol: v, Dbg: rapid.IntRange(0, 3).Draw(t, "dbg") == 0, Layout: rapid.IntRange(0, 3).Draw(t, "layout"), Decoy: rapid.Bool().Draw(t, "decoy")}
		if rapid.IntRange(0, 3).Draw(t, "wide?") == 0 {
			c.Wide = rapid.SampledFrom([]int{20, 99, 100, 101, 250}).Draw(t, "wide")
		}
		if rapid.Bool().Draw(t, "enc") {
			c.KeyPw = genTyped(t, "keypw")
			for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "ntry"); i < n; i++ {
				c.KeyTry = append(c.KeyTry, genTyped(t, fmt.Sprint("try", i)))
			}
		}
		if rapid.IntRange(0, 7).Draw(t, "bad") == 0 {
			c.VolTry = genTyped(t, "voltry")
			switch rapid.IntRange(0, 5).Draw(t, "badkind") {
			case 0:
				c.VolTry = append(append([]byte{}, v.Pw...), 'x')
			case 1:
				c.VolTry = append([]byte{}, v.Pw[:len(v.Pw)-1]...)
			case 2:
				c.VolTry = append([]byte{' '}, v.Pw...)
			case 3:
				c.VolTry = append(append([]byte{}, v.Pw...), ' ')
			case 4:
				c.VolTry = append([]byte{}, c.KeyPw...)
			}
			if rapid.IntRange(0, 5).Draw(t, "none") == 0 {
				c.VolTry = nil
			}
			c.VolNone = len(c.VolTry) == 0
		}
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "nclients"); i < n; i++ {
			l := fmt.Sprint("c", i)
			cl := c28Client{Conn: rapid.IntRange(0, 3).Draw(t, l), Via: rapid.SampledFrom([]string{"", "", "127.0.0.2", "127.9.8.7"}).Draw(t, l+"/via"), Par: rapid.Bool().Draw(t, l+"/par"), End: rapid.SampledFrom([]string{"close", "drop", "stay"}).Draw(t, l+"/end")}
			for j, m := 0, rapid.IntRange(1, 8).Draw(t, l+"/n"); j < m; j++ {
				lj := fmt.Sprintf("%s.%d", l, j)
				cl.Ops = append(cl.Ops, c28Op{
					Kind: rapid.SampledFrom([]string{"read", "read", "range", "range", "list", "list", "stat", "missing", "change", "walk", "lstat"}).Draw(t, lj),
					Pick: rapid.IntRange(0, 300).Draw(t, lj+"/p"), Off: rapid.IntRange(0, 420000).Draw(t, lj+"/o"), Len: rapid.SampledFrom([]int{1, 10, 4096, 32768, 32769, 100000}).Draw(t, lj+"/len"), Sp: rapid.IntRange(0, 7).Draw(t, lj+"/sp"),
				})
			}
			c.Clients = append(c.Clients, cl)
		}
		if rapid.IntRange(0, 3).Draw(t, "cut?") == 0 {
			c.Cut = rapid.IntRange(1, len(c.Clients)).Draw(t, "cut")
		}
		return c
	}, c28Exec)
}

// c28Fixed has what takes long: quiet periods, many clients, large files.
func c28Fixed(tier Tier, seed uint64) []any {
	vol := func(sizes ...int) VolSpec {
		v := VolSpec{Flags: VolFlags{HKDF: seed%2 == 0, LongNames: true}, Seed: seed, Pw: []byte("pw"), Root: "/vol", Workers: 1}
		for i, n := range sizes {
			v.Tree = append(v.Tree, TNode{Name: []byte(fmt.Sprint("f", i)), Size: n, MTime: int64(i)})
		}
		v.Tree = append(v.Tree, TNode{Name: []byte("d"), Dir: true, Kids: []TNode{{Name: []byte("x"), Size: 9000}, {Name: []byte("y"), Dir: true}}})
		return v
	}
	kinds := []string{"read", "list", "stat", "range", "missing", "walk", "change", "lstat"}
	ops := func(n int) []c28Op {
		var o []c28Op
		for i := 0; i < n; i++ {
			o = append(o, c28Op{Kind: kinds[(i+i/8)%len(kinds)], Pick: i / 3, Off: i * 97 % 9000, Len: 4096, Sp: i % 6})
		}
		return o
	}
	idle := 125
	if tier == "thorough" {
		idle = 330
	}
	quiet := c28Case{Vol: vol(5000, 70000)}
	for i := 0; i < 3; i++ {
		quiet.Clients = append(quiet.Clients, c28Client{Conn: i, Ops: ops(9), Par: i < 2, End: "stay", Wait: idle})
	}
	many := c28Case{Vol: vol(5000, 70000)}
	for i := 0; i < 400; i++ {
		many.Clients = append(many.Clients, c28Client{Conn: i, Ops: ops(1 + i%5), Par: i%40 > 25, End: []string{"close", "drop", "drop", "stay"}[i%4]})
	}
	shared := c28Case{Vol: vol(100, 40000)}
	for i := 0; i < 300; i++ {
		shared.Clients = append(shared.Clients, c28Client{Ops: ops(1 + i%3), Par: i%30 > 20, End: "close"})
	}
	long := c28Case{Vol: vol(0, 1, 5000, 70000), Wide: 20, Clients: []c28Client{{Ops: ops(1500), End: "close"}}}
	big := c28Case{Vol: vol(20<<20+4097, 36<<20+1), Clients: []c28Client{{Ops: []c28Op{{Kind: "read", Pick: 0}, {Kind: "range", Pick: 1, Off: 35 << 20, Len: 1 << 20}, {Kind: "read", Pick: 1}, {Kind: "stat", Pick: 1}}, End: "close"}}}
	return []any{quiet, many, shared, long, big}
}

func c28Exec(c c28Case, rec *Rec) error {
	if c.Wide > 0 {
		d := TNode{Name: []byte("wide"), Dir: true}
		for i := 0; i < c.Wide; i++ {
			d.Kids = append(d.Kids, TNode{Name: []byte(fmt.Sprintf("entry%d", i)), Size: i % 50, MTime: int64(i)})
		}
		c.Vol.Tree = append(c.Vol.Tree, d)
	}
	e, err := newE2E(c.Vol, c.Vol.Seed, "u", "p", c.KeyPw)
	if err != nil {
		return err
	}
	defer e.close()
	if c.Decoy {
		// another volume, at a place a wrong path would lead to
		for _, p := range []string{"/vol2", "/data", "/a b", "/home", "/vol", "/v", "/enc"} {
			if absPath(c.Vol.Root) == p || strings.HasPrefix(absPath(c.Vol.Root)+"/", p+"/") && e.vol.fs.lookup(p).kid("gocryptfs.conf") != nil {
				continue
			}
			d := e.vol.fs.mkdirAll(p)
			if d.kid("gocryptfs.conf") == nil && absPath(c.Vol.Root) != "/" {
				o := buildVol(VolSpec{Flags: c.Vol.Flags, Seed: c.Vol.Seed + 99, Pw: c.Vol.Pw, Root: "/", Tree: []TNode{{Name: []byte("decoy"), Size: 10}}})
				for _, k := range o.root.node.kids {
					d.add(k)
				}
			}
		}
	}
	if c.Dbg {
		e.args = []string{"-e"}
	}
	e.layout = c.Layout
	// what is typed, and what must come of it
	tries := append([][]byte{}, c.KeyTry...)
	for i := range tries {
		if bytes.Equal(tries[i], c.KeyPw) {
			tries = tries[:i]
			break
		}
	}
	keyOK := len(tries) < 3
	if c.VolNone {
		c.VolTry = []byte{}
		rec.Label("empty passphrase")
	}
	volOK := c.VolTry == nil || bytes.Equal(c.VolTry, c.Vol.Pw)
	if err := e.launch(true); err != nil {
		return err
	}
	nk, nv := 0, 0
	up, err := e.drive(func(_ int, prompt string) ([]byte, error) {
		if strings.Contains(prompt, "gocryptfs root") {
			if nv++; nv > 1 {
				return nil, fmt.Errorf("asked %d times for the volume's passphrase", nv)
			}
			if c.VolTry != nil {
				return c.VolTry, nil
			}
			return c.Vol.Pw, nil
		}
		if nk++; nk > 3 || len(c.KeyPw) == 0 {
			return nil, fmt.Errorf("asked %d times for the key's passphrase (encrypted: %v)", nk, len(c.KeyPw) > 0)
		}
		if nk <= len(tries) {
			return tries[nk-1], nil
		}
		return c.KeyPw, nil
	})
	if err != nil {
		return err
	}
	if !keyOK || !volOK {
		rec.NonTrivial()
		rec.Label("start must fail")
		if up {
			return fmt.Errorf("the program listens although the passphrases are wrong (key %v, volume %v)", !keyOK, !volOK)
		}
		if e.g.cmd.ProcessState.ExitCode() == 0 || strings.Contains(e.g.err.String(), "panic:") {
			return fmt.Errorf("wrong passphrases (key %v, volume %v) are not reported as an error: exit %d %s", !keyOK, !volOK, e.g.cmd.ProcessState.ExitCode(), clip(e.said(), 800))
		}
		return nil
	}
	if !up {
		// a wrong passphrase that unpads by chance (1 in 256) is not a wrong
		// password to the SSH library
		if len(tries) > 0 && strings.Contains(e.g.err.String(), "SSH key") {
			rec.Label("wrong passphrase unpadded by chance")
			return nil
		}
		return fmt.Errorf("the program ended at startup although everything was in order: %s", clip(e.said(), 1500))
	}
	if nv != 1 {
		return fmt.Errorf("the volume's passphrase was asked for %d times", nv)
	}

	conns := map[int]*ssh.Client{}
	defer func() {
		for _, k := range conns {
			k.Close()
		}
	}()
	var mu sync.Mutex
	answered := 0
	mayFail := 0 // requests that may still meet a dropped connection
	run := func(i int) error {
		cl := c.Clients[i]
		mu.Lock()
		k := conns[cl.Conn]
		if k == nil {
			var err error
			at := proxyAddr
			if cl.Via != "" {
				at = cl.Via + ":9022"
			}
			if k, err = dialSSHAt(at, e.login()); err != nil {
				mu.Unlock()
				return fmt.Errorf("client %d cannot log in: %v", i, err)
			}
			conns[cl.Conn] = k
		}
		mu.Unlock()
		s, err := e.connectOn(&session{ssh: k})
		if err != nil {
			return err
		}
		for j, op := range cl.Ops {
			if j == 1 {
				time.Sleep(time.Duration(cl.Wait) * time.Second)
			}
			err := timed(fmt.Sprintf("client %d operation %d", i, j), func() error { return c28Do(e.vol, s.c, op) })
			mu.Lock()
			answered++
			excuse := mayFail > 0
			if err != nil && excuse {
				mayFail--
				err = nil
			}
			mu.Unlock()
			if err != nil {
				return fmt.Errorf("client %d operation %d (%s): %v; alive %v %s", i, j, op.Kind, err, e.g.alive(), clip(firstPanic(e.g.err.String()), 600))
			}
		}
		switch cl.End {
		case "close":
			_ = timed("closing", func() error { return s.c.Close() })
		}
		return nil
	}
	shut := func(i int) {
		if c.Clients[i].End == "drop" {
			if k := conns[c.Clients[i].Conn]; k != nil {
				k.Close()
				delete(conns, c.Clients[i].Conn)
			}
		}
	}
	for i := 0; i < len(c.Clients); {
		j := i
		for j+1 < len(c.Clients) && c.Clients[j].Par {
			j++
		}
		errs := make([]error, j-i+1)
		var wg sync.WaitGroup
		for k := i; k <= j; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[k-i] = run(k)
			}()
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		for k := i; k <= j; k++ {
			shut(k)
			if c.Cut == k+1 {
				if n := e.r.killAll(); n > 0 {
					rec.Label("remote connections dropped")
					mayFail = 3 * n
				}
			}
		}
		if j > i {
			rec.Label("clients at once")
		}
		i = j + 1
	}
	if answered >= 3 {
		rec.NonTrivial()
	}
	if m := e.r.mutations(); len(m) > 0 {
		return fmt.Errorf("the remote received %+v", m[0])
	}
	if !e.g.alive() {
		return fmt.Errorf("the program ended: %s", firstPanic(e.g.err.String()))
	}
	return nil
}

func c28Do(v *Vol, cl *sftp.Client, op c28Op) error {
	file := func() *PNode {
		if len(v.files) == 0 {
			return nil
		}
		return v.files[op.Pick%len(v.files)]
	}
	checkInfo := func(n *PNode, fi os.FileInfo) error {
		if fi.Name() != path.Base(n.path) {
			return fmt.Errorf("%q is called %q", n.path, fi.Name())
		}
		if fi.IsDir() != n.dir || fi.Mode().Perm() != n.node.Mode().Perm() || !fi.ModTime().Equal(n.node.mtime) {
			return fmt.Errorf("attributes of %q: %v %v, want %v %v", n.path, fi.Mode(), fi.ModTime(), n.node.Mode(), n.node.mtime)
		}
		if !n.dir && fi.Size() != int64(len(n.content)) {
			return fmt.Errorf("size of %q: %d, want %d", n.path, fi.Size(), len(n.content))
		}
		return nil
	}
	list := func(d *PNode, p string) error {
		ls, err := cl.ReadDir(p)
		if err != nil {
			return fmt.Errorf("list %q: %v", p, err)
		}
		if err := cmpNames("list "+p, names(ls), sortedNames(d.kids)); err != nil {
			return err
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].Name() < ls[j].Name() })
		for i, n := range sortedNames(d.kids) {
			if err := checkInfo(d.kids[n], ls[i]); err != nil {
				return err
			}
		}
		return nil
	}
	switch op.Kind {
	case "read", "range":
		f := file()
		if f == nil {
			return nil
		}
		p := spell(f.path, op.Sp)
		if op.Sp == 2 {
			p = f.path // a trailing slash is for directories
		}
		h, err := cl.Open(p)
		if err != nil {
			return fmt.Errorf("open %q: %v", p, err)
		}
		defer h.Close()
		if op.Kind == "read" {
			var b bytes.Buffer
			if _, err := h.WriteTo(&b); err != nil {
				return fmt.Errorf("read %q: %v", p, err)
			}
			if !bytes.Equal(b.Bytes(), f.content) {
				return fmt.Errorf("read %q: %s", p, diffBytes(b.Bytes(), f.content))
			}
			return nil
		}
		off := op.Off % (len(f.content) + 100)
		if _, err := h.Seek(int64(off), io.SeekStart); err != nil {
			return fmt.Errorf("seek: %v", err)
		}
		b := make([]byte, op.Len)
		n, err := io.ReadFull(h, b)
		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
			return fmt.Errorf("read %q at %d: %v", p, off, err)
		}
		want := []byte{}
		if off < len(f.content) {
			want = f.content[off:min(len(f.content), off+op.Len)]
		}
		if !bytes.Equal(b[:n], want) {
			return fmt.Errorf("read %q at %d, %d bytes: %s", p, off, op.Len, diffBytes(b[:n], want))
		}
	case "list":
		d := v.dirs[op.Pick%len(v.dirs)]
		return list(d, spell(d.path, op.Sp))
	case "stat":
		if len(v.all) == 0 {
			return nil
		}
		n := v.all[op.Pick%len(v.all)]
		sp := spell(n.path, op.Sp)
		fi, err := cl.Stat(sp)
		if err != nil {
			return fmt.Errorf("stat %q: %v", sp, err)
		}
		return checkInfo(n, namedInfo{fi, nameOf(fi, sp, n.path)})
	case "missing":
		d := v.dirs[op.Pick%len(v.dirs)]
		for _, n := range []string{"no such name", "gocryptfs.diriv", "gocryptfs.conf", path.Base(v.root.cpath)} {
			if d.kids[n] != nil || n == "/" {
				continue
			}
			p := path.Join(d.path, n)
			if _, err := cl.Stat(p); err == nil {
				return fmt.Errorf("stat of the missing %q succeeded", p)
			}
			if f, err := cl.Open(p); err == nil {
				f.Close()
				return fmt.Errorf("open of the missing %q succeeded", p)
			}
			if _, err := cl.ReadDir(p); err == nil {
				return fmt.Errorf("list of the missing %q succeeded", p)
			}
		}
		for _, k := range d.kids { // encrypted names are not plaintext names
			p := path.Join(d.path, path.Base(k.cpath))
			if d.kids[path.Base(k.cpath)] == nil {
				if _, err := cl.Stat(p); err == nil {
					return fmt.Errorf("the encrypted name %q is visible", p)
				}
			}
			break
		}
	case "change":
		p := "/new"
		if f := file(); f != nil && op.Sp%2 == 0 {
			p = f.path
		}
		errs := []error{cl.Mkdir(p + "d"), cl.Remove(p), cl.Rename(p, p+"x"), cl.Chmod(p, 0o600), cl.Truncate(p, 0), cl.Symlink(p, p+"l")}
		for i, err := range errs {
			if err == nil {
				return fmt.Errorf("change %d of %q was reported as done", i, p)
			}
		}
		if f, err := cl.Create(p); err == nil {
			_, werr := f.Write([]byte("x"))
			cerr := f.Close()
			if werr == nil && cerr == nil {
				return fmt.Errorf("writing %q was reported as done", p)
			}
		}
	case "walk":
		found := map[string]bool{}
		w := cl.Walk("/")
		for w.Step() {
			if w.Err() != nil {
				return fmt.Errorf("walk: %q: %v", w.Path(), w.Err())
			}
			found[w.Path()] = true
		}
		for _, n := range v.all {
			if !found[n.path] {
				return fmt.Errorf("walking does not find %q", n.path)
			}
			delete(found, n.path)
		}
		delete(found, "/")
		for p := range found {
			return fmt.Errorf("walking finds %q, which does not exist", p)
		}
	case "lstat":
		if len(v.all) == 0 {
			return nil
		}
		n := v.all[op.Pick%len(v.all)]
		fi, err := cl.Lstat(n.path)
		if err != nil {
			return fmt.Errorf("lstat %q: %v", n.path, err)
		}
		return checkInfo(n, fi)
	}
	return nil
}
