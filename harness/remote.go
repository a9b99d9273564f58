package main

// An in-memory remote file system (the FSAccessor the proxy reads from), with
// call recording and fault hooks, and a builder of encrypted volumes on it.

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"time"
)

// MNode is a node of the remote file system.
type MNode struct {
	name  string
	dir   bool
	data  []byte
	size  *int64 // override of the reported size
	mode  os.FileMode
	mtime time.Time
	kids  []*MNode
}

func (n *MNode) Name() string { return n.name }
func (n *MNode) Size() int64 {
	if n.size != nil {
		return *n.size
	}
	if n.dir {
		return 4096
	}
	return int64(len(n.data))
}
func (n *MNode) Mode() os.FileMode {
	if n.dir && n.mode&os.ModeType == 0 {
		return n.mode | os.ModeDir
	}
	return n.mode
}
func (n *MNode) ModTime() time.Time { return n.mtime }
func (n *MNode) IsDir() bool        { return n.Mode().IsDir() }
func (n *MNode) Sys() interface{}   { return nil }

func (n *MNode) kid(name string) *MNode {
	for _, k := range n.kids {
		if k.name == name {
			return k
		}
	}
	return nil
}

func (n *MNode) add(k *MNode) *MNode {
	n.kids = append(n.kids, k)
	return k
}

// MemFS implements filetree.FSAccessor.
type MemFS struct {
	mu    sync.Mutex
	root  *MNode
	calls map[string]int // "op path" -> count
	// hook, when set, runs before each call, outside the lock; a non-nil error is returned to the caller
	hook func(op, p string) error
	// partial: a call failed by the hook also returns the first part of its data
	partial bool
}

func newMemFS() *MemFS {
	return &MemFS{root: &MNode{name: "/", dir: true, mode: 0o755}, calls: map[string]int{}}
}

// remoteHome is the login directory on the remote, from which relative paths
// start.
const remoteHome = "/home/u"

func absPath(p string) string {
	if !path.IsAbs(p) {
		p = remoteHome + "/" + p
	}
	return path.Clean(p)
}

func (m *MemFS) mkdirAll(p string) *MNode {
	n := m.root
	for _, c := range strings.Split(strings.Trim(absPath(p), "/"), "/") {
		if c == "" {
			continue
		}
		k := n.kid(c)
		if k == nil {
			k = n.add(&MNode{name: c, dir: true, mode: 0o755})
		}
		n = k
	}
	return n
}

// shuffle puts the entries of every directory in an order that depends on salt.
func (m *MemFS) shuffle(salt uint64) {
	var rec func(n *MNode)
	rec = func(n *MNode) {
		key := func(s string) uint64 {
			h := fnv.New64a()
			fmt.Fprintf(h, "%d/%s", salt, s)
			return h.Sum64()
		}
		sort.SliceStable(n.kids, func(i, j int) bool { return key(n.kids[i].name) < key(n.kids[j].name) })
		for _, k := range n.kids {
			rec(k)
		}
	}
	rec(m.root)
}

func (m *MemFS) lookup(p string) *MNode {
	n := m.root
	for _, c := range strings.Split(strings.Trim(absPath(p), "/"), "/") {
		if c == "" {
			continue
		}
		if !n.IsDir() {
			return nil
		}
		if n = n.kid(c); n == nil {
			return nil
		}
	}
	return n
}

func (m *MemFS) pre(op, p string) (*MNode, error) {
	m.mu.Lock()
	m.calls[op+" "+absPath(p)]++
	h := m.hook
	m.mu.Unlock()
	if h != nil {
		if err := h(op, absPath(p)); err != nil {
			if m.partial {
				m.mu.Lock()
				defer m.mu.Unlock()
				return m.lookup(p), err
			}
			return nil, err
		}
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	n := m.lookup(p)
	if n == nil {
		return nil, &os.PathError{Op: op, Path: p, Err: os.ErrNotExist}
	}
	return n, nil
}

func (m *MemFS) count(op, p string) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.calls[op+" "+absPath(p)]
}

func (m *MemFS) totals() (reads int, total int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k, v := range m.calls {
		total += v
		if !strings.HasPrefix(k, "Stat ") {
			reads += v
		}
	}
	return
}

func (m *MemFS) ReadFile(p string) ([]byte, error) {
	n, err := m.pre("ReadFile", p)
	if err != nil {
		if n != nil && !n.IsDir() && len(n.data) > 0 {
			// cut after whole blocks where there are some
			k := len(n.data) / 2
			if k > refHeader+refCipherBS {
				k -= (k - refHeader) % refCipherBS
			}
			return append([]byte{}, n.data[:k]...), err
		}
		return nil, err
	}
	if n.IsDir() {
		return nil, fmt.Errorf("read %s: is a directory", p)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	// like bytes.Buffer: nil for an empty file
	if len(n.data) == 0 {
		return nil, nil
	}
	return append([]byte{}, n.data...), nil
}

func (m *MemFS) Stat(p string) (os.FileInfo, error) {
	n, err := m.pre("Stat", p)
	if err != nil {
		if n != nil {
			c := *n
			return &c, err
		}
		return nil, err
	}
	c := *n
	return &c, nil
}

func (m *MemFS) ReadDir(p string) ([]os.FileInfo, error) {
	n, err := m.pre("ReadDir", p)
	if err != nil {
		if n != nil && n.IsDir() {
			var out []os.FileInfo
			for _, k := range n.kids[:(len(n.kids)+1)/2] {
				c := *k
				out = append(out, &c)
			}
			return out, err
		}
		return nil, err
	}
	if !n.IsDir() {
		return nil, fmt.Errorf("readdir %s: not a directory", p)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	var out []os.FileInfo
	for _, k := range n.kids {
		c := *k
		out = append(out, &c)
	}
	return out, nil
}

// ---------------------------------------------------------------- volumes

// TNode is a plaintext tree, as generated.
type TNode struct {
	Name   []byte  `json:"n"`
	Dir    bool    `json:"d,omitempty"`
	Size   int     `json:"s,omitempty"`
	Holes  []int   `json:"h,omitempty"`
	Data   []int   `json:"b,omitempty"`  // if set: only these blocks hold data, the others are holes
	Hdr    bool    `json:"hd,omitempty"` // empty files: stored as a bare header
	Fill   int     `json:"f,omitempty"`  // 0: random bytes, else see refill
	SameID bool    `json:"id,omitempty"` // has the file ID of the last file of its size, as a copy that was changed later
	Mode   uint32  `json:"m,omitempty"`
	MTime  int64   `json:"t,omitempty"`
	Kids   []TNode `json:"k,omitempty"`
}

// VolSpec describes an encrypted volume.
type VolSpec struct {
	Flags   VolFlags `json:"f"`
	Seed    uint64   `json:"seed"`
	Pw      []byte   `json:"pw"`
	Root    string   `json:"root"`
	Workers int      `json:"w"`
	Tree    []TNode  `json:"tree"`
	Rev     bool     `json:"rev,omitempty"` // order of remote listings
}

// PNode is the plaintext side of a built volume.
type PNode struct {
	path    string // absolute plaintext path
	cpath   string // ciphertext path on the remote
	dir     bool
	content []byte
	node    *MNode
	kids    map[string]*PNode
	iv      []byte
}

// Vol is a built volume.
type Vol struct {
	spec  VolSpec
	ref   *RefVol
	fs    *MemFS
	root  *PNode
	all   []*PNode // files and directories, root excluded
	files []*PNode
	dirs  []*PNode       // root included
	seeds map[int]uint64 // of the last file of each size
}

func content(seed uint64, size int, holes map[int]bool) []byte {
	b := prng(seed^0xc0ffee, size)
	for h := range holes {
		if (h+1)*refPlainBS <= size {
			for i := h * refPlainBS; i < (h+1)*refPlainBS; i++ {
				b[i] = 0
			}
		}
	}
	return b
}

const nFills = 9

// refill gives a file content with structure: zeros, repetition, text. Holes
// stay zero.
func refill(b []byte, kind int, holes map[int]bool) {
	n := len(b)
	set := func(from, to int, f func(i int) byte) {
		for i := max(0, from); i < to; i++ {
			if !holes[i/refPlainBS] {
				b[i] = f(i)
			}
		}
	}
	zero := func(int) byte { return 0 }
	switch kind % nFills {
	case 1: // all zeros, stored as data
		set(0, n, zero)
	case 2: // a last block of zeros
		if n > 0 {
			set((n-1)/refPlainBS*refPlainBS, n, zero)
		}
	case 3: // a first block of zeros
		set(0, min(n, refPlainBS), zero)
	case 4:
		set(0, n, func(int) byte { return 0xff })
	case 5:
		const txt = "one line\r\nanother\n\ttab\x1a\x00end \xef\xbb\xbf\n"
		set(0, n, func(i int) byte { return txt[i%len(txt)] })
	case 6: // every block the same
		first := append([]byte{}, b[:min(n, refPlainBS)]...)
		set(0, n, func(i int) byte { return first[i%refPlainBS] })
	case 7: // blocks of zeros between blocks of data
		set(0, n, func(i int) byte {
			if i/refPlainBS%2 == 1 {
				return 0
			}
			return b[i]
		})
	case 8: // trailing zeros and newlines in the last bytes
		set(n-33, n, func(i int) byte { return "\x00\n"[i%2] })
	}
}

func buildVol(s VolSpec) *Vol {
	v := &Vol{spec: s, ref: NewRefVol(s.Flags, s.Seed, s.Pw), fs: newMemFS(), seeds: map[int]uint64{}}
	rn := v.fs.mkdirAll(s.Root)
	ctr := s.Seed
	next := func() uint64 { ctr = ctr*6364136223846793005 + 1442695040888963407; return ctr }
	v.root = &PNode{path: "/", cpath: absPath(s.Root), dir: true, node: rn, kids: map[string]*PNode{}}
	rn.add(&MNode{name: "gocryptfs.conf", data: v.ref.ConfJSON(s.Seed), mode: 0o400})
	v.dirs = append(v.dirs, v.root)
	v.fill(v.root, s.Tree, next)
	return v
}

func (v *Vol) fill(p *PNode, kids []TNode, next func() uint64) {
	p.iv = prng(next(), 16)
	p.node.add(&MNode{name: "gocryptfs.diriv", data: p.iv, mode: 0o440})
	for _, k := range kids {
		name := string(k.Name)
		if p.kids[name] != nil {
			continue // the generator may draw a name twice
		}
		cn := v.ref.EncName(name, p.iv)
		c := &PNode{path: path.Join(p.path, name), cpath: path.Join(p.cpath, cn), dir: k.Dir}
		mode := os.FileMode(k.Mode & 0o777)
		for i, b := range []os.FileMode{os.ModeSticky, os.ModeSetgid, os.ModeSetuid} {
			if k.Mode>>(9+i)&1 == 1 {
				mode |= b
			}
		}
		if mode == 0 {
			mode = 0o644
		}
		mn := &MNode{name: cn, dir: k.Dir, mode: mode, mtime: time.Unix(k.MTime, 0)}
		c.node = mn
		p.node.add(mn)
		p.kids[name] = c
		v.all = append(v.all, c)
		if k.Dir {
			c.kids = map[string]*PNode{}
			v.dirs = append(v.dirs, c)
			v.fill(c, k.Kids, next)
			continue
		}
		holes := map[int]bool{}
		for _, h := range k.Holes {
			if h >= 0 && (h+1)*refPlainBS <= k.Size {
				holes[h] = true
			}
		}
		sd := next()
		if len(k.Data) > 0 {
			c.content = make([]byte, k.Size)
			for i := 0; (i+1)*refPlainBS <= k.Size; i++ {
				holes[i] = true
			}
			for _, b := range k.Data {
				if s := b * refPlainBS; s < k.Size {
					delete(holes, b)
					copy(c.content[s:min(k.Size, s+refPlainBS)], prng(sd^uint64(b), refPlainBS))
				}
			}
		} else {
			c.content = content(sd, k.Size, holes)
			refill(c.content, k.Fill, holes)
		}
		esd := sd
		if old, ok := v.seeds[k.Size]; ok && k.SameID {
			esd = old
		}
		mn.data = v.ref.EncFile(c.content, esd, holes)
		v.seeds[k.Size] = esd
		if k.Size == 0 && k.Hdr {
			mn.data = append([]byte{0, 2}, prng(sd^0x51ed270b, 16)...)
		}
		v.files = append(v.files, c)
	}
	if v.spec.Rev {
		for i, j := 0, len(p.node.kids)-1; i < j; i, j = i+1, j-1 {
			p.node.kids[i], p.node.kids[j] = p.node.kids[j], p.node.kids[i]
		}
	}
}

func sortedNames(m map[string]*PNode) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func diffBytes(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	n := len(got)
	if len(want) < n {
		n = len(want)
	}
	i := 0
	for i < n && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("got %d bytes, want %d, first difference at offset %d", len(got), len(want), i)
}

func cmpNames(what string, got, want []string) error {
	g, w := strings.Join(quoteAll(got), ","), strings.Join(quoteAll(want), ",")
	if g != w {
		return fmt.Errorf("%s: listing has %d names, want %d: got [%s] want [%s]", what, len(got), len(want), clip(g, 800), clip(w, 800))
	}
	return nil
}

func quoteAll(s []string) []string {
	o := make([]string, len(s))
	for i := range s {
		o[i] = fmt.Sprintf("%q", s[i])
	}
	return o
}

func names(ls []os.FileInfo) []string {
	var out []string
	for _, x := range ls {
		out = append(out, x.Name())
	}
	sort.Strings(out)
	return out
}
