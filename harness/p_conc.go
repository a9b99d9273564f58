//go:build all || c22

package main

// C22: many clients at once get what each would get alone.

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/flawedmatrix/gocryptsftp/backend"
	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/pkg/sftp"
	"pgregory.net/rapid"
)

type c22Op struct {
	Kind int `json:"k"` // 0 read, 1 list, 2 stat, 3 missing
	Pick int `json:"p"`
	Sp   int `json:"sp,omitempty"`
}

type c22Client struct {
	Via  int     `json:"via"` // 0 tree, 1 own SFTP session, 2 shared SFTP session, 3 handlers
	Ops  []c22Op `json:"ops"`
	Drop int     `json:"drop,omitempty"` // own session: dropped with requests under way after this many
}

type c22Case struct {
	Vol     VolSpec     `json:"vol"`
	Wide    int         `json:"wide"` // additional directories
	Clients []c22Client `json:"clients"`
	Remote  bool        `json:"remote,omitempty"` // through the connection pool to an SSH server
	Jitter  int         `json:"jitter"`
	Flaky   int         `json:"flaky,omitempty"` // percent of remote calls that fail in the first phase
	JSeed   uint64      `json:"jseed"`
}

func init() {
	reg(Prop{
		ID: "C22", Quick: 320, Thorough: 12000, Race: true, Recycle: 40,
		Rule:  "a case is a volume with up to 60 directories (more than the lookup cache holds), 2-20 clients (direct, through handlers, through shared or own SFTP sessions, some dropped in mid-request) each with 1-25 reads, listings, stats and lookups of missing paths, run at once, with generated delays and failures at the remote, optionally through the connection pool to an SSH server; run twice over, the second time with the remote healthy; non-trivial = at least three clients overlapped; oracle: the plaintext model for every answer, also re-read at the end, and the race detector",
		Setup: "schedules are sampled; built with the Go race detector, whose report is a violation",
	}, func(t *rapid.T, tier Tier) c22Case {
		v := genVol(t)
		v.Workers = rapid.SampledFrom([]int{1, 2, 4, 8, 32}).Draw(t, "w")
		v.Tree = genTree(t, treeOpt{depth: 3, breadth: 4, dirBias: 4, name: genName,
			size: func(t *rapid.T, l string) int {
				return rapid.SampledFrom([]int{0, 1, 100, 4095, 4096, 4097, 9000, 40000, 100001, 120000, 131072, 140000}).Draw(t, l)
			}})
		c := c22Case{Vol: v, Wide: rapid.SampledFrom([]int{0, 3, 15, 16, 17, 30, 60}).Draw(t, "wide"), Jitter: rapid.IntRange(0, 3).Draw(t, "jitter"), JSeed: rapid.Uint64().Draw(t, "jseed")}
		c.Remote = rapid.IntRange(0, 3).Draw(t, "remote") == 0
		if rapid.IntRange(0, 2).Draw(t, "fl") == 0 {
			c.Flaky = rapid.SampledFrom([]int{1, 5, 30}).Draw(t, "flaky")
		}
		same := rapid.Bool().Draw(t, "same")
		var script []c22Op
		for i, n := 0, rapid.IntRange(2, 20).Draw(t, "nclients"); i < n; i++ {
			l := fmt.Sprint("c", i)
			cl := c22Client{Via: rapid.IntRange(0, 3).Draw(t, l)}
			if !same || script == nil {
				script = nil
				for j, m := 0, rapid.IntRange(1, 25).Draw(t, l+"/n"); j < m; j++ {
					lj := fmt.Sprintf("%s.%d", l, j)
					script = append(script, c22Op{Kind: rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 2, 3}).Draw(t, lj), Pick: rapid.IntRange(0, 200).Draw(t, lj+"/p"), Sp: rapid.IntRange(0, 7).Draw(t, lj+"/sp")})
				}
			}
			cl.Ops = script
			if cl.Via == 1 && rapid.IntRange(0, 3).Draw(t, l+"/drop") == 0 {
				cl.Drop = rapid.IntRange(1, 10).Draw(t, l+"/dropat")
			}
			c.Clients = append(c.Clients, cl)
		}
		return c
	}, c22Exec)
}

// c22API is what a client does, by whichever way.
type c22API struct {
	read func(p string) ([]byte, error)
	list func(p string) ([]os.FileInfo, error)
	stat func(p string) (os.FileInfo, error)
}

func c22Exec(c c22Case, rec *Rec) error {
	for i := 0; i < c.Wide; i++ {
		d := TNode{Name: []byte(fmt.Sprintf("wide%d", i)), Dir: true, MTime: int64(i)}
		for j := 0; j < 1+i%3; j++ {
			d.Kids = append(d.Kids, TNode{Name: []byte(fmt.Sprintf("f%d", j)), Size: (i*1777 + j*4096) % 9000, MTime: 5})
		}
		if i%7 == 0 {
			d.Kids = append(d.Kids, TNode{Name: []byte("deep"), Dir: true, Kids: []TNode{{Name: []byte("er"), Dir: true, Kids: []TNode{{Name: []byte("f"), Size: 10 + i}}}}})
		}
		c.Vol.Tree = append(c.Vol.Tree, d)
	}
	v := buildVol(c.Vol)
	var healthy atomic.Bool
	var ctr atomic.Uint64
	v.fs.hook = func(op, p string) error {
		n := ctr.Add(1)
		x := prng(c.JSeed+n*977, 4)
		switch c.Jitter {
		case 1:
			runtime.Gosched()
		case 2:
			time.Sleep(time.Duration(x[0]) * 4 * time.Microsecond)
		case 3:
			if x[0] < 20 {
				time.Sleep(time.Duration(x[1]) * 40 * time.Microsecond)
			}
		}
		if !healthy.Load() && c.Flaky > 0 && int(x[2])%100 < c.Flaky && path.Base(p) != "gocryptfs.conf" {
			return errors.New("the remote has a bad moment")
		}
		return nil
	}
	var acc filetree.FSAccessor = v.fs
	if c.Remote {
		host, key := signerFrom(c.JSeed+1), signerFrom(c.JSeed+2)
		r, err := newSSHRemote(v.fs, host, "u", key.PublicKey())
		if err != nil {
			return err
		}
		defer r.close()
		acc = backend.NewProvider(r.addr, clientConfig("u", key, host.PublicKey()), discardLog())
		rec.Label("through an SSH server")
	}
	open := func() (*filetree.FileTree, sftp.Handlers, error) {
		ft, err := filetree.Init(c.Vol.Root, append([]byte{}, c.Vol.Pw...), c.Vol.Workers, acc)
		if err != nil {
			return nil, sftp.Handlers{}, fmt.Errorf("the volume could not be opened: %v", err)
		}
		h, err := handlers.DecryptHandler(c.Vol.Root, append([]byte{}, c.Vol.Pw...), c.Vol.Workers, acc)
		if err != nil {
			return nil, h, fmt.Errorf("the volume could not be opened: %v", err)
		}
		return ft, h, nil
	}
	ft, h, err := open()
	if err != nil {
		return err
	}
	shared, stopShared, err := sftpSession(h)
	if err != nil {
		return err
	}
	defer stopShared()
	sapi := func(cl *sftp.Client) c22API {
		return c22API{
			read: func(p string) ([]byte, error) {
				f, err := cl.Open(p)
				if err != nil {
					return nil, err
				}
				defer f.Close()
				var b bytes.Buffer
				if _, err := f.WriteTo(&b); err != nil {
					return nil, err
				}
				return b.Bytes(), nil
			},
			list: cl.ReadDir, stat: cl.Stat,
		}
	}
	type held struct {
		what      string
		got, want []byte
	}
	var active, peak atomic.Int32
	var slow atomic.Int32
	phase := func(ph int, mayFail bool) error {
		errs := make([]error, len(c.Clients))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, cl := range c.Clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[i] = fmt.Errorf("panic: %v", r)
					}
				}()
				var hold []held
				api := c22API{ft.ReadFile, ft.ReadDir, ft.Stat}
				var dropped atomic.Bool
				switch cl.Via {
				case 1:
					own, stop, err := sftpSession(h)
					if err != nil {
						errs[i] = err
						return
					}
					var once sync.Once
					end := func() { once.Do(stop) }
					defer end()
					api = sapi(own)
					if cl.Drop > 0 && ph == 0 {
						n := 0
						read, list, stat := api.read, api.list, api.stat
						count := func() {
							if n++; n == cl.Drop {
								dropped.Store(true)
								go func() { runtime.Gosched(); end() }()
							}
						}
						api.read = func(p string) ([]byte, error) { count(); return read(p) }
						api.list = func(p string) ([]os.FileInfo, error) { count(); return list(p) }
						api.stat = func(p string) (os.FileInfo, error) { count(); return stat(p) }
					}
				case 2:
					api = sapi(shared)
				case 3:
					api = c22API{
						read: func(p string) ([]byte, error) {
							r, err := h.FileGet.Fileread(sftp.NewRequest("Get", path.Clean("/"+p)))
							if err != nil {
								return nil, err
							}
							b := make([]byte, 200000)
							n, _ := r.ReadAt(b, 0)
							return b[:n], nil
						},
						list: func(p string) ([]os.FileInfo, error) {
							l, err := h.FileList.Filelist(sftp.NewRequest("List", path.Clean("/"+p)))
							if err != nil {
								return nil, err
							}
							return listAll(l, []int{3, 5})
						},
						stat: func(p string) (os.FileInfo, error) {
							l, err := h.FileList.Filelist(sftp.NewRequest("Stat", path.Clean("/"+p)))
							if err != nil {
								return nil, err
							}
							ls, err := listAll(l, nil)
							if err != nil || len(ls) != 1 {
								return nil, fmt.Errorf("stat gave %d entries, %v", len(ls), err)
							}
							return ls[0], nil
						},
					}
				}
				<-start
				n := active.Add(1)
				for o := peak.Load(); n > o && !peak.CompareAndSwap(o, n); o = peak.Load() {
				}
				defer active.Add(-1)
				bad := func(op c22Op, what string, err error) bool {
					if err == nil {
						return false
					}
					if mayFail || dropped.Load() {
						return true
					}
					if strings.Contains(err.Error(), "imed out") {
						slow.Add(1)
					}
					errs[i] = fmt.Errorf("client %d (phase %d): %s: %v", i, ph, what, err)
					return true
				}
				for _, op := range cl.Ops {
					if errs[i] != nil || dropped.Load() {
						break
					}
					switch op.Kind {
					case 0:
						if len(v.files) == 0 {
							continue
						}
						f := v.files[op.Pick%len(v.files)]
						b, err := api.read(spell(f.path, op.Sp))
						if !bad(op, "reading "+f.path, err) && !dropped.Load() {
							hold = append(hold, held{f.path, b, f.content})
							if !bytes.Equal(b, f.content) {
								errs[i] = fmt.Errorf("client %d (phase %d): reading %s: %s", i, ph, f.path, diffBytes(b, f.content))
							}
						}
					case 1:
						d := v.dirs[op.Pick%len(v.dirs)]
						ls, err := api.list(spell(d.path, op.Sp))
						if !bad(op, "listing "+d.path, err) && !dropped.Load() {
							if err := cmpNames(fmt.Sprintf("client %d (phase %d): listing %s", i, ph, d.path), names(ls), sortedNames(d.kids)); err != nil {
								errs[i] = err
							}
						}
					case 2:
						if len(v.all) == 0 {
							continue
						}
						e := v.all[op.Pick%len(v.all)]
						sp := spell(e.path, op.Sp)
						fi, err := api.stat(sp)
						if !bad(op, "stat "+e.path, err) && !dropped.Load() {
							if nameOf(fi, sp, e.path) != path.Base(e.path) || fi.IsDir() != e.dir || !e.dir && fi.Size() != int64(len(e.content)) || !fi.ModTime().Equal(e.node.mtime) {
								errs[i] = fmt.Errorf("client %d (phase %d): stat %s gave %s %v %d %v", i, ph, e.path, fi.Name(), fi.IsDir(), fi.Size(), fi.ModTime())
							}
						}
					case 3:
						d := v.dirs[op.Pick%len(v.dirs)]
						p := path.Join(d.path, "no such thing")
						if _, err := api.read(p); err == nil && !dropped.Load() {
							errs[i] = fmt.Errorf("client %d: a file that does not exist was read", i)
						}
						if _, err := api.stat(p); err == nil && !dropped.Load() {
							errs[i] = fmt.Errorf("client %d: stat of a file that does not exist succeeded", i)
						}
					}
				}
				for _, x := range hold {
					if errs[i] == nil && !bytes.Equal(x.got, x.want) {
						errs[i] = fmt.Errorf("client %d: the contents of %s changed after they had been delivered: %s", i, x.what, diffBytes(x.got, x.want))
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		return nil
	}
	healthy.Store(c.Flaky == 0)
	if err := phase(0, c.Flaky > 0); err != nil {
		return err
	}
	healthy.Store(true)
	if err := phase(1, false); err != nil {
		return err
	}
	if peak.Load() >= 3 {
		rec.NonTrivial()
		rec.Label("three or more clients overlapped")
	}
	if c.Flaky > 0 {
		rec.Label("remote failing in the first phase")
	}
	return nil
}
