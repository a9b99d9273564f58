//go:build all || c06

package main

// C06: the proxy is read-only.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path"
	"time"

	"github.com/flawedmatrix/gocryptsftp/backend"
	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
)

type c06Op struct {
	Kind string `json:"kind"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	Miss bool   `json:"miss,omitempty"`
	Flag int    `json:"flag,omitempty"`
	N    int    `json:"n,omitempty"`
}

type c06Case struct {
	Vol   VolSpec `json:"vol"`
	Proxy bool    `json:"proxy"` // the reference pass-through handler instead of the decrypting one
	Ops   []c06Op `json:"ops"`
}

var c06Kinds = []string{"openflags", "openflags", "create", "remove", "rmdir", "mkdir", "mkdirall", "rename", "posixrename", "symlink", "chmod", "chown", "chtimes", "truncate", "fwrite", "fchmod", "ftruncate", "handler-cmd", "handler-put", "tree", "read", "list", "stat"}

// c06Flags holds every combination of open flags that asks for writing.
var c06Flags = func() []int {
	var out []int
	for m := 0; m < 16; m++ {
		x := 0
		for i, f := range []int{os.O_CREATE, os.O_TRUNC, os.O_APPEND, os.O_EXCL} {
			if m>>i&1 == 1 {
				x |= f
			}
		}
		out = append(out, os.O_WRONLY|x, os.O_RDWR|x)
	}
	return out
}()

func init() {
	reg(Prop{
		ID: "C06", Quick: 1200, Thorough: 12000, Fixed: c06Fixed,
		Rule:  "a case is a volume behind a recording SSH/SFTP remote and a generated sequence of mutating SFTP requests (every opcode, open-flag combination, handle-based variants), direct handler and tree calls, mixed with reads; non-trivial = at least one mutating request was issued; oracle: every mutating request fails, the remote only ever receives read requests, and all files still read back unchanged",
		Setup: "loopback TCP works",
	}, func(t *rapid.T, tier Tier) c06Case {
		v := genVol(t)
		v.Tree = genTree(t, treeOpt{depth: 1, breadth: 3, dirBias: 4, name: genName, size: genSmallSize})
		c := c06Case{Vol: v, Proxy: rapid.IntRange(0, 4).Draw(t, "proxy") == 4}
		n := rapid.IntRange(1, 12).Draw(t, "nops")
		for i := 0; i < n; i++ {
			c.Ops = append(c.Ops, c06Op{Kind: rapid.SampledFrom(c06Kinds).Draw(t, "kind"), A: rapid.IntRange(0, 20).Draw(t, "a"), B: rapid.IntRange(0, 20).Draw(t, "b"), Miss: rapid.Bool().Draw(t, "miss"), Flag: rapid.SampledFrom(c06Flags).Draw(t, "flag"), N: rapid.IntRange(0, 63).Draw(t, "n")})
		}
		return c
	}, c06Exec)
}

// c06Fixed repeats each mutating request many times in one session.
func c06Fixed(tier Tier, seed uint64) []any {
	var out []any
	for i, k := range c06Kinds {
		if k == "posixrename" || k == "read" || k == "list" || k == "stat" {
			continue
		}
		c := c06Case{Vol: VolSpec{Flags: VolFlags{HKDF: true, Raw64: true}, Seed: seed + uint64(i), Pw: []byte("pw"), Root: "/vol", Workers: 2,
			Tree: []TNode{{Name: []byte("d"), Dir: true, Mode: 0o755}, {Name: []byte("f"), Size: 100, Mode: 0o644}}}}
		for j := 0; j < 400; j++ {
			c.Ops = append(c.Ops, c06Op{Kind: k, A: 1 + j%2, B: j / 2, Miss: j/4%2 == 1, Flag: c06Flags[j/8%len(c06Flags)], N: j % 64})
		}
		out = append(out, c)
	}
	return out
}

func c06Exec(c c06Case, rec *Rec) error {
	v := buildVol(c.Vol)
	key, host := signerFrom(c.Vol.Seed), signerFrom(c.Vol.Seed+1)
	r, err := newSSHRemote(v.fs, host, "u", key.PublicKey())
	if err != nil {
		return err
	}
	defer r.close()
	var h sftp.Handlers
	var ft *filetree.FileTree
	plainBase := true
	if c.Proxy {
		sc, err := ssh.Dial("tcp", r.addr, clientConfig("u", key, host.PublicKey()))
		if err != nil {
			return inconclusive("dial: %v", err)
		}
		defer sc.Close()
		rc, err := sftp.NewClient(sc)
		if err != nil {
			return inconclusive("sftp: %v", err)
		}
		defer rc.Close()
		h = handlers.ProxyHandler(rc)
		plainBase = false
	} else {
		b := backend.NewProvider(r.addr, clientConfig("u", key, host.PublicKey()), discardLog())
		h, err = handlers.DecryptHandler(v.spec.Root, append([]byte{}, v.spec.Pw...), v.spec.Workers, b)
		if err != nil {
			return fmt.Errorf("a valid volume could not be opened: %v", err)
		}
		ft, err = filetree.Init(v.spec.Root, append([]byte{}, v.spec.Pw...), v.spec.Workers, b)
		if err != nil {
			return fmt.Errorf("a valid volume could not be opened: %v", err)
		}
	}
	cl, stop, err := sftpSession(h)
	if err != nil {
		return err
	}
	defer func() { stop() }()
	nodes := append([]*PNode{v.root}, v.all...)
	pick := func(i int, miss bool) (string, *PNode) {
		n := nodes[i%len(nodes)]
		p := n.path
		if !plainBase {
			p = n.cpath
		}
		if miss {
			return path.Join(p, "new-entry"), nil
		}
		return p, n
	}
	openAny := func(i int) *sftp.File {
		for k := 0; k < len(nodes); k++ {
			n := nodes[(i+k)%len(nodes)]
			if n.dir {
				continue
			}
			p := n.path
			if !plainBase {
				p = n.cpath
			}
			f, err := cl.Open(p)
			if err == nil {
				return f
			}
		}
		return nil
	}
	must := func(what string, err error) error {
		rec.NonTrivial()
		rec.Label("mutation " + what)
		if err == nil {
			return fmt.Errorf("%s succeeded: the proxy must be read-only", what)
		}
		return nil
	}
	for _, op := range c.Ops {
		p, n := pick(op.A, op.Miss)
		q, _ := pick(op.B, !op.Miss)
		if op.B%5 == 0 {
			q = p // onto itself
		}
		var e error
		switch op.Kind {
		case "openflags":
			f, err := cl.OpenFile(p, op.Flag)
			e = must("open for writing", err)
			if f != nil {
				f.Close()
			}
		case "create":
			f, err := cl.Create(p)
			e = must("create", err)
			if f != nil {
				f.Close()
			}
		case "remove":
			e = must("remove", cl.Remove(p))
		case "rmdir":
			e = must("rmdir", cl.RemoveDirectory(p))
		case "mkdir":
			e = must("mkdir", cl.Mkdir(p))
		case "mkdirall":
			if !op.Miss {
				continue
			}
			e = must("mkdir -p", cl.MkdirAll(p))
		case "rename":
			e = must("rename", cl.Rename(p, q))
		case "posixrename":
			// an extended request: the SFTP library may end the session over
			// it, so it gets a session of its own
			pc, pstop, err := sftpSession(h)
			if err != nil {
				return err
			}
			e = must("posix-rename", pc.PosixRename(p, q))
			pstop()
		case "symlink":
			e = must("symlink", cl.Symlink(p, q))
		case "chmod":
			mode := os.FileMode(0o600 + op.N)
			if n != nil && n.node != nil && op.N%3 == 0 {
				mode = n.node.mode // no change
			}
			e = must("chmod", cl.Chmod(p, mode))
		case "chown":
			e = must("chown", cl.Chown(p, op.N, op.N))
		case "chtimes":
			at := time.Unix(int64(op.N), 0)
			if n != nil && n.node != nil && op.N%3 == 0 {
				at = n.node.mtime
			}
			e = must("chtimes", cl.Chtimes(p, at, at))
		case "truncate":
			size := int64(op.N)
			if n != nil && op.N%3 == 0 {
				size = int64(len(n.content)) // no change
			}
			e = must("truncate", cl.Truncate(p, size))
		case "fwrite":
			f := openAny(op.A)
			if f == nil {
				continue
			}
			_, err := f.Write(bytes.Repeat([]byte{7}, op.N+1))
			e = must("write to a read handle", err)
			f.Close()
		case "fchmod":
			f := openAny(op.A)
			if f == nil {
				continue
			}
			e = must("fchmod", f.Chmod(0o700))
			f.Close()
		case "ftruncate":
			f := openAny(op.A)
			if f == nil {
				continue
			}
			e = must("ftruncate", f.Truncate(int64(op.N)))
			f.Close()
		case "handler-cmd":
			m := []string{"Setstat", "Rename", "Rmdir", "Remove", "Mkdir", "Symlink"}[op.N%6]
			rq := sftp.NewRequest(m, p)
			rq.Target = q
			if m == "Setstat" {
				rq.Flags = uint32(op.B % 16) // size, owner, permissions, times
				rq.Attrs = make([]byte, 8*(op.B%2)+8*(op.B/2%2)+4*(op.B/4%2)+8*(op.B/8%2))
			}
			e = must("handler "+m, h.FileCmd.Filecmd(rq))
		case "handler-put":
			rq := sftp.NewRequest("Put", p)
			rq.Flags = uint32(op.N)
			w, err := h.FilePut.Filewrite(rq)
			if err == nil && w == nil {
				e = must("handler Put (nil writer, no error)", nil)
			} else {
				e = must("handler Put", err)
			}
		case "tree":
			if ft == nil {
				continue
			}
			switch op.N % 4 {
			case 0:
				_, err := ft.WriteFile(p, []byte("data"))
				e = must("tree WriteFile", err)
			case 1:
				e = must("tree Mkdir", ft.Mkdir(p))
			case 2:
				e = must("tree Rename", ft.Rename(p, q))
			case 3:
				e = must("tree Remove", ft.Remove(p))
			}
		case "read":
			if n != nil && !n.dir && !c.Proxy {
				f, err := cl.Open(p)
				if err != nil {
					return fmt.Errorf("open(%q): %v", p, err)
				}
				var b bytes.Buffer
				_, _ = io.Copy(&b, struct{ io.Reader }{f})
				f.Close()
				if d := diffBytes(b.Bytes(), n.content); d != "" {
					return fmt.Errorf("after mutations were refused, %q reads differently: %s", p, d)
				}
			}
		case "list":
			_, _ = cl.ReadDir(p)
		case "stat":
			_, _ = cl.Stat(p)
		}
		if e != nil {
			return fmt.Errorf("%v (path %q, flags %#x)", e, p, op.Flag)
		}
	}
	if !c.Proxy {
		for _, n := range v.files {
			b, err := ft.ReadFile(n.path)
			if err != nil {
				return fmt.Errorf("after mutations were refused, ReadFile(%q): %v", n.path, err)
			}
			if d := diffBytes(b, n.content); d != "" {
				return fmt.Errorf("after mutations were refused, %q reads differently: %s", n.path, d)
			}
		}
	}
	if m := r.mutations(); len(m) > 0 {
		return fmt.Errorf("the remote received a mutating request: %+v", m[0])
	}
	return nil
}
