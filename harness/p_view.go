//go:build all || c01 || c02 || c03

package main

// C01 content fidelity, C02 namespace fidelity, C03 metadata fidelity.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path"
	"slices"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/pkg/sftp"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C01

type c01Op struct {
	File int      `json:"file"`
	Via  int      `json:"via"` // 0 tree, 1 handler ReaderAt, 2 sftp client whole, 3 sftp client ranges
	Off  int64    `json:"off,omitempty"`
	Len  int      `json:"len,omitempty"`
	Sp   int      `json:"sp,omitempty"`
	Reqs [][2]int `json:"reqs,omitempty"`
}

type c01Case struct {
	Vol VolSpec `json:"vol"`
	Ops []c01Op `json:"ops"`
}

func init() {
	reg(Prop{
		ID: "C01", Quick: 1400, Thorough: 14000, Fixed: c01Fixed,
		Rule:  "a case is an encrypted volume written by the reference implementation (flag combinations, boundary-weighted file sizes, holes) and a sequence of whole and ranged reads through the file tree, the SFTP handler and an SFTP client; non-trivial = at least one read of a file longer than one block or of an empty file was compared",
		Setup: "the remote answers correctly; names need no long-name file",
	}, func(t *rapid.T, tier Tier) c01Case {
		big := 300000
		if tier == "thorough" {
			big = 1500000
		}
		v := genVol(t)
		v.Tree = genTree(t, treeOpt{depth: 2, breadth: 4, dirBias: 3, name: genName,
			size: func(t *rapid.T, l string) int { return genSize(t, l, big) }})
		c := c01Case{Vol: v}
		n := rapid.IntRange(1, 8).Draw(t, "nops")
		for i := 0; i < n; i++ {
			op := c01Op{File: rapid.IntRange(0, 40).Draw(t, "file"), Via: rapid.IntRange(0, 3).Draw(t, "via"), Sp: rapid.IntRange(0, 7).Draw(t, "sp")}
			if op.Via == 1 || op.Via == 3 {
				m := rapid.IntRange(1, 4).Draw(t, "nreq")
				for j := 0; j < m; j++ {
					op.Reqs = append(op.Reqs, [2]int{genSize(t, "off", big), rapid.SampledFrom([]int{1, 2, 100, 4095, 4096, 4097, 32768, 70000}).Draw(t, "len")})
				}
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, c01Exec)
}

// c01Fixed reads sparse files whose block numbers need 2 and 3 bytes, and
// dense files of several megabytes.
func c01Fixed(tier Tier, seed uint64) []any {
	var out []any
	for i, blocks := range []int{300, 65600} {
		for _, siv := range []bool{false, true} {
			out = append(out, c01Case{
				Vol: VolSpec{Flags: VolFlags{HKDF: i == 0, Raw64: true, AESSIV: siv}, Seed: seed*7 + uint64(i), Pw: []byte("pw"), Root: "/vol", Workers: 2,
					Tree: []TNode{{Name: []byte("sparse"), Size: blocks*refPlainBS + 5, Mode: 0o644, Data: []int{0, 1, 44, 255, 256, 257, 299, 300, 65535, 65536, 65537, blocks}}}},
				Ops: []c01Op{{File: 0, Via: 1, Reqs: [][2]int{{0, 4097}, {255 * 4096, 3 * 4096}, {(blocks - 1) * 4096, 8192}}}},
			})
		}
	}
	sizes := []int{1<<20 - 1, 2<<20 + 4096, 3<<20 + 77, 4<<20 + 1, 6<<20 - 4097, 9<<20 + 333, 17<<20 + 4095, 33<<20 + 9}
	if tier == "thorough" {
		sizes = append(sizes, 67<<20+5, 130<<20+4096)
	}
	for i, n := range sizes {
		n += int(seed*2654435761%8192) - 4096
		out = append(out, c01Case{
			Vol: VolSpec{Flags: VolFlags{HKDF: i%2 == 0, Raw64: true, AESSIV: i%3 == 2}, Seed: seed*11 + uint64(i), Pw: []byte("pw"), Root: "/vol", Workers: 2,
				Tree: []TNode{{Name: []byte("dense"), Size: n, Mode: 0o644}}},
			Ops: []c01Op{{Via: 2}, {Via: 1, Reqs: [][2]int{{0, 4097}, {n - 70000, 80000}, {n / 2, 1 << 20}}}},
		})
	}
	return out
}

func c01Exec(c c01Case, rec *Rec) error {
	v := buildVol(c.Vol)
	if len(v.files) == 0 {
		return nil
	}
	ft, err := v.openTree()
	if err != nil {
		return err
	}
	h, err := v.openHandlers()
	if err != nil {
		return err
	}
	var cl *sftp.Client
	defer func() {
		if cl != nil {
			cl.Close()
		}
	}()
	type held struct {
		what      string
		got, want []byte
	}
	var hold []held
	ops := append([]c01Op{}, c.Ops...)
	for i := range v.files { // every file is read at least once
		ops = append(ops, c01Op{File: i})
	}
	for _, op := range ops {
		f := v.files[op.File%len(v.files)]
		p := spell(f.path, op.Sp)
		if len(f.content) == 0 || len(f.content) > refPlainBS {
			rec.NonTrivial()
		}
		switch {
		case len(f.content) == 0:
			rec.Label("read of an empty file")
		case len(f.content) > 131072+4096:
			rec.Label("read beyond the pooled buffer size")
		case len(f.content) > 4096:
			rec.Label("read of a multi-block file")
		case len(f.content) == 4096:
			rec.Label("read of exactly one block")
		}
		switch op.Via {
		case 0:
			got, err := ft.ReadFile(p)
			if err != nil {
				return fmt.Errorf("FileTree.ReadFile(%q) (%d plaintext bytes, flags %+v): %v", p, len(f.content), c.Vol.Flags, err)
			}
			hold = append(hold, held{"FileTree.ReadFile " + p, got, f.content})
		case 1:
			r, err := h.FileGet.Fileread(sftp.NewRequest("Get", f.path))
			if err != nil {
				return fmt.Errorf("Fileread(%q) (%d plaintext bytes, flags %+v): %v", f.path, len(f.content), c.Vol.Flags, err)
			}
			for _, q := range op.Reqs {
				buf := bytes.Repeat([]byte{0xAA}, q[1])
				n, err := r.ReadAt(buf, int64(q[0]))
				want := sliceAt(f.content, q[0], q[1])
				if n != len(want) || !bytes.Equal(buf[:n], want) {
					return fmt.Errorf("ReadAt(%q, off=%d, len=%d) of %d bytes: got n=%d err=%v, wrong bytes or length (want %d)", f.path, q[0], q[1], len(f.content), n, err, len(want))
				}
				if n < q[1] && err != io.EOF {
					return fmt.Errorf("ReadAt(%q, off=%d, len=%d) was short (n=%d) with err=%v", f.path, q[0], q[1], n, err)
				}
				if n == q[1] && err != nil && err != io.EOF {
					return fmt.Errorf("ReadAt(%q, off=%d, len=%d): %v", f.path, q[0], q[1], err)
				}
				rec.Label("ranged read")
			}
		default:
			if cl == nil {
				var stop func()
				cl, stop, err = sftpSession(h)
				if err != nil {
					return err
				}
				defer stop()
			}
			fh, err := cl.Open(p)
			if err != nil {
				return fmt.Errorf("SFTP open(%q) (%d plaintext bytes, flags %+v): %v", p, len(f.content), c.Vol.Flags, err)
			}
			if op.Via == 2 {
				var b bytes.Buffer
				// a plain sequential read to EOF (WriteTo sizes its work by Stat)
				_, err := io.Copy(&b, struct{ io.Reader }{fh})
				if err != nil {
					return fmt.Errorf("SFTP read(%q): %v", p, err)
				}
				hold = append(hold, held{"SFTP read " + p, b.Bytes(), f.content})
				rec.Label("sftp whole-file read")
			} else {
				for _, q := range op.Reqs {
					if _, err := fh.Seek(int64(q[0]), io.SeekStart); err != nil {
						return fmt.Errorf("SFTP seek: %v", err)
					}
					buf := make([]byte, q[1])
					n, err := io.ReadFull(struct{ io.Reader }{fh}, buf)
					want := sliceAt(f.content, q[0], q[1])
					if n != len(want) || !bytes.Equal(buf[:n], want) {
						return fmt.Errorf("SFTP read(%q, off=%d, len=%d) of %d bytes: n=%d err=%v, wrong bytes or length (want %d)", p, q[0], q[1], len(f.content), n, err, len(want))
					}
				}
				rec.Label("sftp ranged read")
			}
			if err := fh.Close(); err != nil {
				return fmt.Errorf("SFTP close(%q): %v", p, err)
			}
		}
	}
	// compare at the end: a result must not change because something else was read later
	for _, x := range hold {
		if d := diffBytes(x.got, x.want); d != "" {
			return fmt.Errorf("%q (flags %+v): %s", x.what, c.Vol.Flags, d)
		}
	}
	return nil
}

func sliceAt(b []byte, off, n int) []byte {
	if off >= len(b) {
		return nil
	}
	b = b[off:]
	if n < len(b) {
		b = b[:n]
	}
	return b
}

// ---------------------------------------------------------------- C02

type c02Case struct {
	Vol     VolSpec  `json:"vol"`
	Wide    int      `json:"wide"`             // extra entries in the first directory
	Chain   int      `json:"chain"`            // extra nested directories
	LongCh  int      `json:"longch,omitempty"` // length of their names
	Fan     int      `json:"fan"`              // extra sibling directories (lookup cache pressure)
	Batches []int    `json:"batches"`
	Junk    []string `json:"junk"`
	Miss    [][]byte `json:"miss"`
	Order   []int    `json:"order"`
	Sp      []int    `json:"sp"`
}

var junkNames = []string{"README.txt", "x", "gocryptfs.longname.AAAA", "gocryptfs.longname.AAAA.name", ".DS_Store", "AAAA", "AAAAAAAAAAAAAAAAAAAAAA==", "AAAAAAAAAAAAAAAAAAAAAA", "not base64!", "....", "lost+found"}

func init() {
	reg(Prop{
		ID: "C02", Quick: 1500, Thorough: 12000, Fixed: c02Fixed,
		Rule:  "a case is a volume written by the reference implementation (deep, wide and many-directory trees, odd names, foreign entries on the remote) and a generated order of lookups and listings by several path spellings, through the tree, the handler's batched lister and an SFTP client; non-trivial = more than 16 directories visited, or more than 100 entries in one listing, or foreign entries present",
		Setup: "foreign entries do not decrypt to a name under the directory's key (checked with the reference decryptor)",
	}, func(t *rapid.T, tier Tier) c02Case {
		v := genVol(t)
		v.Tree = genTree(t, treeOpt{depth: 4, breadth: 5, dirBias: 5, name: genName, size: genSmallSize})
		c := c02Case{Vol: v}
		if rapid.IntRange(0, 3).Draw(t, "widek") == 0 {
			c.Wide = rapid.SampledFrom([]int{31, 63, 64, 65, 90, 97, 98, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 350, 511, 513, 1023, 1025, 1100}).Draw(t, "wide")
		}
		if rapid.IntRange(0, 3).Draw(t, "chaink") == 0 {
			c.Chain = rapid.IntRange(1, 40).Draw(t, "chain")
			c.LongCh = rapid.SampledFrom([]int{1, 1, 16, 100, 175}).Draw(t, "longch")
		}
		if rapid.IntRange(0, 2).Draw(t, "fank") == 0 {
			c.Fan = rapid.IntRange(1, 40).Draw(t, "fan")
		}
		c.Batches = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 7, 50, 100, 128}), 1, 3).Draw(t, "batches")
		c.Junk = rapid.SliceOfN(rapid.SampledFrom(junkNames), 0, 4).Draw(t, "junk")
		n := rapid.IntRange(0, 4).Draw(t, "nmiss")
		for i := 0; i < n; i++ {
			c.Miss = append(c.Miss, genName(t, "miss"))
		}
		c.Order = rapid.SliceOfN(rapid.IntRange(0, 400), 1, 30).Draw(t, "order")
		c.Sp = rapid.SliceOfN(rapid.IntRange(0, 7), 1, 5).Draw(t, "sp")
		return c
	}, c02Exec)
}

// c02Fixed has very wide directories and very long paths in every run.
func c02Fixed(tier Tier, seed uint64) []any {
	var out []any
	for i, w := range []int{0, 130, 520, 2100, 4200, 12000} {
		out = append(out, c02Case{Vol: VolSpec{Flags: VolFlags{HKDF: i%2 == 0, Raw64: i%3 == 0}, Seed: seed*11 + uint64(i), Pw: []byte("pw"), Root: "/vol", Workers: 1 + i, Rev: i%2 == 1,
			Tree: []TNode{{Name: []byte("only"), Size: 3}}},
			Wide: w, Chain: 25 + 30*(i%2), LongCh: 175 - i, Fan: 3, Batches: []int{100}, Order: []int{i}, Sp: []int{i, 0}})
	}
	deep := []int{140, 300, 530}
	if tier == "thorough" {
		deep = append(deep, 1030, 2100)
	}
	for i, d := range deep {
		out = append(out, c02Case{Vol: VolSpec{Flags: VolFlags{HKDF: i%2 == 1, Raw64: true}, Seed: seed*13 + uint64(i), Pw: []byte("pw"), Root: "/vol", Workers: 1 + i},
			Chain: d, LongCh: 1 + i%2, Fan: 18, Batches: []int{100}, Order: []int{i, 2*d - 1, d + 7, 2 * d, 3, 2*d - 5}, Sp: []int{i, 0}})
	}
	return out
}

func c02Exec(c c02Case, rec *Rec) error {
	vs := c.Vol
	for i := 0; i < c.Wide; i++ {
		vs.Tree = append(vs.Tree, TNode{Name: []byte(fmt.Sprintf("wide%04d", i)), Size: i % 3})
	}
	for i := 0; i < c.Fan; i++ {
		vs.Tree = append(vs.Tree, TNode{Name: []byte(fmt.Sprintf("fan%d", i)), Dir: true, Kids: []TNode{{Name: []byte(fmt.Sprintf("in%d", i)), Size: i}, {Name: []byte("twin"), Size: 30}, {Name: []byte("same"), Dir: true, Kids: []TNode{{Name: []byte(fmt.Sprintf("leaf%d", i)), Size: 3}}}}})
	}
	if c.Chain > 0 {
		var cur []TNode
		for i := c.Chain; i > 0; i-- {
			cur = []TNode{{Name: []byte(strings.Repeat("c", 1+max(0, c.LongCh-1))), Dir: true, Kids: append(cur, TNode{Name: []byte(fmt.Sprintf("f%d", i)), Size: i})}}
		}
		vs.Tree = append(vs.Tree, cur...)
	}
	v := buildVol(vs)
	junk := 0
	for i, j := range c.Junk {
		d := v.dirs[i%len(v.dirs)]
		if _, ok := v.ref.DecName(j, d.iv); ok || d.node.kid(j) != nil {
			continue
		}
		switch (i + len(j)) % 3 {
		case 0:
			d.node.add(&MNode{name: j, data: []byte("junk"), mode: 0o644})
		case 1:
			d.node.add(&MNode{name: j, dir: true, mode: 0o755})
		case 2:
			d.node.add(&MNode{name: j, data: []byte("junk"), mode: 0o777 | os.ModeSymlink})
		}
		junk++
	}
	if c.Order[0]%2 == 0 {
		v.fs.shuffle(c.Vol.Seed)
	}
	if len(v.dirs) > 17 {
		rec.Label("more directories than the lookup cache holds")
		rec.NonTrivial()
	}
	if c.Wide >= 100 {
		rec.Label("listing over 100 entries")
		rec.NonTrivial()
	}
	if junk > 0 {
		rec.Label("foreign entries present")
		rec.NonTrivial()
	}
	ft, err := v.openTree()
	if err != nil {
		return err
	}
	h, err := v.openHandlers()
	if err != nil {
		return err
	}
	cl, stop, err := sftpSession(h)
	if err != nil {
		return err
	}
	defer stop()

	nodes := append([]*PNode{v.root}, v.all...)
	var order []*PNode
	for _, o := range c.Order {
		order = append(order, nodes[o%len(nodes)])
	}
	order = append(order, nodes...)
	// go through everything twice in different directions: answers from the caches must agree
	for i := len(nodes) - 1; i >= 0 && i > len(nodes)-60; i-- {
		order = append(order, nodes[i])
	}
	if len(order) > 1500 {
		order = order[:1500]
	}
	for i, n := range order {
		p := spell(n.path, c.Sp[i%len(c.Sp)])
		if n.dir {
			want := sortedNames(n.kids)
			ls, err := ft.ReadDir(p)
			if err != nil {
				return fmt.Errorf("ReadDir(%q): %v", p, err)
			}
			if err := cmpNames(fmt.Sprintf("ReadDir(%q)", p), names(ls), want); err != nil {
				return err
			}
			for _, x := range ls {
				if k := n.kids[x.Name()]; k == nil || k.dir != x.IsDir() {
					return fmt.Errorf("ReadDir(%q): %q has the wrong type", p, x.Name())
				}
			}
			if b, err := ft.ReadFile(p); err == nil {
				return fmt.Errorf("ReadFile(%q) of a directory succeeded with %d bytes", p, len(b))
			}
			if i%4 == 0 {
				la, err := h.FileList.Filelist(sftp.NewRequest("List", n.path))
				if err != nil {
					return fmt.Errorf("Filelist(List %q): %v", n.path, err)
				}
				got, err := listAll(la, c.Batches)
				if err != nil {
					return fmt.Errorf("Filelist(List %q): %v", n.path, err)
				}
				if err := cmpNames(fmt.Sprintf("lister(%q) in batches %v", n.path, c.Batches), names(got), want); err != nil {
					return err
				}
				got, err = cl.ReadDir(p)
				if err != nil {
					return fmt.Errorf("SFTP ReadDir(%q): %v", p, err)
				}
				if err := cmpNames(fmt.Sprintf("SFTP ReadDir(%q)", p), names(got), want); err != nil {
					return err
				}
			}
		} else {
			if i%3 == 0 {
				b, err := ft.ReadFile(p)
				if err != nil {
					return fmt.Errorf("ReadFile(%q): %v", p, err)
				}
				if d := diffBytes(b, n.content); d != "" {
					return fmt.Errorf("ReadFile(%q) served another file's content: %s", p, d)
				}
			}
			if ls, err := ft.ReadDir(p); err == nil {
				return fmt.Errorf("ReadDir(%q) of a file succeeded with %d entries", p, len(ls))
			}
			if n.path != "/" {
				if _, err := ft.ReadFile(path.Join(n.path, "x")); err == nil {
					return fmt.Errorf("a path below the file %q resolved", n.path)
				}
			}
		}
		if i%2 == 0 {
			fi, err := ft.Stat(p)
			if err != nil {
				return fmt.Errorf("Stat(%q): %v", p, err)
			}
			if fi.IsDir() != n.dir {
				return fmt.Errorf("Stat(%q): wrong type (IsDir=%v)", p, fi.IsDir())
			}
			if n.path != "/" && fi.Name() != path.Base(n.path) {
				return fmt.Errorf("Stat(%q): name %q", p, fi.Name())
			}
		}
	}
	// files of one name and size, one right after the other
	for k := 0; k < 2*c.Fan; k++ {
		p := fmt.Sprintf("/fan%d/twin", (k*7+k/3)%c.Fan)
		i := slices.IndexFunc(v.all, func(n *PNode) bool { return n.path == p })
		if i < 0 {
			continue
		}
		f, err := cl.Open(p)
		if err != nil {
			return fmt.Errorf("SFTP Open(%q): %v", p, err)
		}
		b, err := io.ReadAll(f)
		_ = f.Close()
		if err != nil {
			return fmt.Errorf("SFTP read(%q): %v", p, err)
		}
		if d := diffBytes(b, v.all[i].content); d != "" {
			return fmt.Errorf("SFTP read(%q) served another file's content: %s", p, d)
		}
		if b, err = ft.ReadFile(p); err != nil {
			return fmt.Errorf("ReadFile(%q): %v", p, err)
		}
		if d := diffBytes(b, v.all[i].content); d != "" {
			return fmt.Errorf("ReadFile(%q) served another file's content: %s", p, d)
		}
	}
	// names that do not exist: plaintext misses, ciphertext names, volume internals
	for _, d := range v.dirs {
		miss := []string{"gocryptfs.diriv", "gocryptfs.conf", "no such entry", "README.txt"}
		for _, m := range c.Miss {
			miss = append(miss, string(m))
		}
		for _, k := range sortedNames(d.kids) {
			miss = append(miss, strings.ToUpper(k), strings.ToLower(k), k+" ", k[:len(k)-1], path.Base(d.kids[k].cpath),
				flipAt(k, len(k)-1), flipAt(k, len(k)/2), flipAt(k, 0), k+"x", "x"+k, k[1:], k+k)
			if len(miss) > 40 {
				break
			}
		}
		for _, m := range miss {
			if m == "" || m == "." || m == ".." || strings.Contains(m, "/") || strings.Contains(m, "\x00") || d.kids[m] != nil {
				continue
			}
			if err := absent(ft, path.Join(d.path, m)); err != nil {
				return err
			}
		}
	}
	return nil
}

// flipAt changes one byte of a name.
func flipAt(s string, i int) string {
	b := []byte(s)
	b[i] ^= 1
	return string(b)
}

func absent(ft *filetree.FileTree, p string) error {
	if b, err := ft.ReadFile(p); err == nil {
		return fmt.Errorf("ReadFile(%q) of a name that does not exist succeeded with %d bytes", p, len(b))
	}
	if _, err := ft.ReadDir(p); err == nil {
		return fmt.Errorf("ReadDir(%q) of a name that does not exist succeeded", p)
	}
	if _, err := ft.Stat(p); err == nil {
		return fmt.Errorf("Stat(%q) of a name that does not exist succeeded", p)
	}
	return nil
}

// ---------------------------------------------------------------- C03

type c03Case struct {
	Vol  VolSpec `json:"vol"`
	Huge []int64 `json:"huge"` // plaintext sizes of files that are only listed, never read
	Link bool    `json:"link"`
}

func init() {
	reg(Prop{
		ID: "C03", Quick: 1600, Thorough: 16000,
		Rule:  "a case is a volume with generated modes, times and sizes (up to 2^45 bytes for entries that are only listed); attributes from listing, stat, fstat and the SFTP client are compared with the plaintext; non-trivial = a size beyond one block or a huge size was compared",
		Setup: "directory and symlink sizes, and names longer than 175 bytes, are unspecified",
	}, func(t *rapid.T, tier Tier) c03Case {
		v := genVol(t)
		v.Tree = genTree(t, treeOpt{depth: 2, breadth: 5, dirBias: 3, name: genName,
			size: func(t *rapid.T, l string) int { return genSize(t, l, 150000) }})
		c := c03Case{Vol: v, Link: rapid.IntRange(0, 4).Draw(t, "link") == 0}
		n := rapid.IntRange(0, 4).Draw(t, "nhuge")
		for i := 0; i < n; i++ {
			e := uint(rapid.IntRange(12, 45).Draw(t, "exp"))
			s := int64(1)<<e + int64(rapid.SampledFrom([]int{-1, 0, 1, -4096, 4096}).Draw(t, "delta"))
			if rapid.Bool().Draw(t, "rnd") {
				s = rapid.Int64Range(1, 1<<45).Draw(t, "huge")
			}
			if s < 1 {
				s = 1
			}
			c.Huge = append(c.Huge, s)
		}
		return c
	}, c03Exec)
}

func c03Exec(c c03Case, rec *Rec) error {
	v := buildVol(c.Vol)
	type huge struct{ size int64 }
	hm := map[string]int64{}
	for i, s := range c.Huge {
		d := v.dirs[i%len(v.dirs)]
		name := fmt.Sprintf("huge-file-%d", i)
		cs := refPlainToCipher(s)
		n := d.node.add(&MNode{name: v.ref.EncName(name, d.iv), data: []byte("x"), size: &cs, mode: 0o640})
		pn := &PNode{path: path.Join(d.path, name), node: n}
		d.kids[name] = pn
		hm[pn.path] = s
		v.all = append(v.all, pn)
	}
	var linkPath string
	if c.Link {
		d := v.dirs[len(v.dirs)-1]
		n := d.node.add(&MNode{name: v.ref.EncName("a-link", d.iv), data: []byte("x"), mode: 0o777 | os.ModeSymlink})
		pn := &PNode{path: path.Join(d.path, "a-link"), node: n}
		d.kids["a-link"] = pn
		linkPath = pn.path
		v.all = append(v.all, pn)
	}
	ft, err := v.openTree()
	if err != nil {
		return err
	}
	h, err := v.openHandlers()
	if err != nil {
		return err
	}
	cl, stop, err := sftpSession(h)
	if err != nil {
		return err
	}
	defer stop()

	check := func(what string, fi os.FileInfo, n *PNode) error {
		if fi == nil {
			return fmt.Errorf("%s: nil info", what)
		}
		if n.path != "/" && fi.Name() != path.Base(n.path) {
			return fmt.Errorf("%s: name %q, want %q", what, fi.Name(), path.Base(n.path))
		}
		if fi.Mode() != n.node.Mode() {
			return fmt.Errorf("%s: mode %v, want %v", what, fi.Mode(), n.node.Mode())
		}
		if fi.IsDir() != n.dir {
			return fmt.Errorf("%s: IsDir %v, want %v", what, fi.IsDir(), n.dir)
		}
		if w := n.node.ModTime(); n.path != "/" && fi.ModTime().Unix() != w.Unix() && hm[n.path] == 0 && n.path != linkPath {
			return fmt.Errorf("%s: mtime %v, want %v", what, fi.ModTime().Unix(), w.Unix())
		}
		if n.dir || n.path == linkPath {
			return nil
		}
		want := int64(len(n.content))
		if s, ok := hm[n.path]; ok {
			want = s
			rec.Label("huge size compared")
		}
		if want > refPlainBS {
			rec.NonTrivial()
		}
		if fi.Size() != want {
			return fmt.Errorf("%s: size %d, but the plaintext has %d bytes", what, fi.Size(), want)
		}
		return nil
	}
	for i, n := range v.all {
		fi, err := ft.Stat(n.path)
		if err != nil {
			return fmt.Errorf("Stat(%q): %v", n.path, err)
		}
		if err := check(fmt.Sprintf("Stat(%q)", n.path), fi, n); err != nil {
			return err
		}
		sp := spell(n.path, i)
		if fi, err = ft.Stat(sp); err != nil {
			return fmt.Errorf("Stat(%q): %v", sp, err)
		}
		if err := check(fmt.Sprintf("Stat(%q)", sp), fi, n); err != nil {
			return err
		}
		if fi, err = cl.Stat(sp); err != nil {
			return fmt.Errorf("SFTP Stat(%q): %v", sp, err)
		}
		if err := check(fmt.Sprintf("SFTP Stat(%q)", sp), namedInfo{fi, nameOf(fi, sp, n.path)}, n); err != nil {
			return err
		}
		fi, err = cl.Stat(n.path)
		if err != nil {
			return fmt.Errorf("SFTP Stat(%q): %v", n.path, err)
		}
		if err := check(fmt.Sprintf("SFTP Stat(%q)", n.path), fi, n); err != nil {
			return err
		}
		fi, err = cl.Lstat(n.path)
		if err != nil {
			return fmt.Errorf("SFTP Lstat(%q): %v", n.path, err)
		}
		if err := check(fmt.Sprintf("SFTP Lstat(%q)", n.path), fi, n); err != nil {
			return err
		}
		if _, isHuge := hm[n.path]; !n.dir && !isHuge && n.path != linkPath {
			f, err := cl.Open(n.path)
			if err != nil {
				return fmt.Errorf("SFTP Open(%q): %v", n.path, err)
			}
			fi, err := f.Stat()
			if err != nil {
				return fmt.Errorf("SFTP Fstat(%q): %v", n.path, err)
			}
			if err := check(fmt.Sprintf("SFTP Fstat(%q)", n.path), fi, n); err != nil {
				return err
			}
			// the client's bulk download trusts the size
			var b bytes.Buffer
			if _, err := f.WriteTo(&b); err != nil {
				return fmt.Errorf("SFTP download(%q): %v", n.path, err)
			}
			if int64(b.Len()) != fi.Size() {
				return fmt.Errorf("SFTP download(%q): reported size %d but %d bytes were readable", n.path, fi.Size(), b.Len())
			}
			_ = f.Close()
			rec.Label("size compared with bytes read")
		}
	}
	for _, d := range v.dirs {
		fi, err := ft.Stat(d.path)
		if err != nil {
			return fmt.Errorf("Stat(%q): %v", d.path, err)
		}
		if !fi.IsDir() {
			return fmt.Errorf("Stat(%q) says it is not a directory", d.path)
		}
		ls, err := ft.ReadDir(d.path)
		if err != nil {
			return fmt.Errorf("ReadDir(%q): %v", d.path, err)
		}
		ls2, err := cl.ReadDir(d.path)
		if err != nil {
			return fmt.Errorf("SFTP ReadDir(%q): %v", d.path, err)
		}
		for i, l := range [][]os.FileInfo{ls, ls2} {
			if len(l) != len(d.kids) {
				return fmt.Errorf("listing %d of %q has %d entries, want %d", i, d.path, len(l), len(d.kids))
			}
			for _, fi := range l {
				n := d.kids[fi.Name()]
				if n == nil {
					return fmt.Errorf("listing of %q has an unknown entry %q", d.path, fi.Name())
				}
				if err := check(fmt.Sprintf("listing %d entry %q", i, n.path), fi, n); err != nil {
					return err
				}
			}
		}
	}
	return nil
}
