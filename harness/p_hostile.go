//go:build all || c04 || c05

package main

// C04 tamper evidence, C05 robustness against a hostile remote.

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"os"
	"path"
	"strings"

	"github.com/pkg/sftp"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C04

type tamper struct {
	Kind string `json:"kind"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	Bit  int    `json:"bit"`
	N    int    `json:"n"`
}

type c04File struct {
	Size  int      `json:"size"`
	Holes []int    `json:"holes,omitempty"`
	Data  []int    `json:"data,omitempty"`
	Zero  bool     `json:"zero,omitempty"` // all full blocks are holes
	Of    int      `json:"of,omitempty"`   // n > 0: a copy of the n-th file's stored bytes, before the edits
	T     []tamper `json:"t,omitempty"`
}

type c04Case struct {
	Vol   VolSpec   `json:"vol"`
	Files []c04File `json:"files"`
	Sftp  bool      `json:"sftp"`
}

var tamperKinds = []string{"flip", "flip", "flip", "fliphdr", "fliplast", "swap", "foreign", "header", "trunc", "truncblk", "extend", "extendzero", "zeroblk", "zeropart", "drop", "dup", "version", "zeronoce", "swaphalf", "move", "set", "tail", "tail", "addtail", "zeroid"}

func init() {
	reg(Prop{
		ID: "C04", Quick: 2400, Thorough: 24000, Fixed: c04Fixed,
		Rule:  "a case is a volume whose stored ciphertexts were edited (bit flips in header, nonce, data, tag; blocks swapped, moved, dropped, duplicated, transplanted between files; headers exchanged; truncation, extension, zeroing; also of copies of other files); each read is compared with the reference decryptor: error where it reports corruption, identical bytes where it does not; non-trivial = at least one edited file that the reference rejects",
		Setup: "AES-GCM/AES-SIV forgeries by luck are ignored (2^-128); files of 1..17 bytes are unspecified (error or empty); whole-block truncation, whole-block zeroing and whole-file replacement are undetectable in the format and must decrypt as the reference says",
	}, func(t *rapid.T, tier Tier) c04Case {
		v := genVol(t)
		c := c04Case{Vol: v, Sftp: rapid.Bool().Draw(t, "sftp")}
		n := rapid.IntRange(1, 5).Draw(t, "n")
		for i := 0; i < n; i++ {
			f := c04File{Size: genSize(t, "size", 40000)}
			if rapid.IntRange(0, 2).Draw(t, "cap") > 0 && f.Size > 20000 {
				f.Size = 4096 + f.Size%12289
			}
			if rapid.IntRange(0, 14).Draw(t, "large") == 14 {
				f.Size = rapid.IntRange(130000, 700000).Draw(t, "size/large")
			}
			f.Holes = genHoles(t, "holes", f.Size)
			f.Zero = rapid.IntRange(0, 7).Draw(t, "zero") == 7
			if f.Zero && f.Size > 4096 && rapid.Bool().Draw(t, "zeroall") {
				f.Size &^= 4095
			}
			if i > 0 && rapid.IntRange(0, 3).Draw(t, "copy") == 0 {
				f.Of = rapid.IntRange(1, i).Draw(t, "of")
			}
			if rapid.IntRange(0, 5).Draw(t, "clean") > 0 {
				m := 1
				if rapid.IntRange(0, 3).Draw(t, "multi") == 0 {
					m = 2
				}
				for j := 0; j < m; j++ {
					f.T = append(f.T, tamper{Kind: rapid.SampledFrom(tamperKinds).Draw(t, "kind"), A: rapid.IntRange(0, 300000).Draw(t, "a"), B: rapid.IntRange(0, 300000).Draw(t, "b"), Bit: rapid.IntRange(0, 7).Draw(t, "bit"), N: rapid.SampledFrom([]int{1, 2, 15, 16, 17, 18, 31, 32, 33, 50, 51, 4096, 4127, 4128, 4129}).Draw(t, "n")})
				}
			}
			c.Files = append(c.Files, f)
		}
		return c
	}, c04Exec)
}

// c04Fixed rearranges blocks whose numbers agree in their low bytes, and
// edits single places of files of several megabytes.
func c04Fixed(tier Tier, seed uint64) []any {
	var out []any
	for i, far := range []int{256, 65536} {
		for _, siv := range []bool{false, true} {
			out = append(out, c04Case{
				Vol:   VolSpec{Flags: VolFlags{HKDF: i == 1, Raw64: true, AESSIV: siv}, Seed: seed*11 + uint64(i), Pw: []byte("pw"), Root: "/vol", Workers: 2},
				Files: []c04File{{Size: (far + 2) * refPlainBS, Data: []int{1, far + 1}, T: []tamper{{Kind: "swap", A: 1, B: far + 1}}}},
			})
		}
	}
	for i, n := range []int{1<<20 + 5, 3 << 20, 5<<20 + 4096, 17<<20 + 1} {
		n += int(seed * 2654435761 % 4099)
		for j, tm := range []tamper{{Kind: "fliplast", A: 3}, {Kind: "flip", A: n / 2, Bit: 3}, {Kind: "swap", A: 100, B: 200}, {Kind: "flip", A: n - 5000, Bit: 7}} {
			if n > 4<<20 && j > 1 {
				break
			}
			out = append(out, c04Case{
				Vol:   VolSpec{Flags: VolFlags{HKDF: j%2 == 1, Raw64: true, AESSIV: i == 2}, Seed: seed*13 + uint64(i), Pw: []byte("pw"), Root: "/vol", Workers: 2},
				Files: []c04File{{Size: n, T: []tamper{tm}}}, Sftp: j == 1,
			})
		}
	}
	return out
}

// applyTamper edits the ciphertext d; other is another file's ciphertext.
func applyTamper(d, other []byte, tm tamper) []byte {
	d = append([]byte{}, d...)
	blocks := 0
	if len(d) > refHeader {
		blocks = (len(d) - refHeader + refCipherBS - 1) / refCipherBS
	}
	blk := func(x []byte, i int) (int, int) {
		s := refHeader + i*refCipherBS
		e := s + refCipherBS
		if e > len(x) {
			e = len(x)
		}
		return s, e
	}
	if len(d) == 0 {
		switch tm.Kind {
		case "extend":
			return prng(uint64(tm.A), tm.N)
		case "extendzero":
			return make([]byte, tm.N)
		}
		return d
	}
	switch tm.Kind {
	case "flip":
		d[tm.A%len(d)] ^= 1 << tm.Bit
	case "fliphdr":
		d[tm.A%min(len(d), refHeader)] ^= 1 << tm.Bit
	case "fliplast":
		d[len(d)-1-tm.A%min(len(d), 40)] ^= 1 << tm.Bit
	case "set":
		d[tm.A%len(d)] = byte(tm.B)
	case "swap":
		if blocks >= 2 {
			i, j := tm.A%blocks, tm.B%blocks
			si, ei := blk(d, i)
			sj, ej := blk(d, j)
			if ei-si == ej-sj {
				x := append([]byte{}, d[si:ei]...)
				copy(d[si:ei], d[sj:ej])
				copy(d[sj:ej], x)
			}
		}
	case "move":
		if blocks >= 2 {
			si, ei := blk(d, tm.A%blocks)
			sj, ej := blk(d, tm.B%blocks)
			copy(d[sj:ej], append([]byte{}, d[si:ei]...))
		}
	case "foreign":
		ob := (len(other) - refHeader + refCipherBS - 1) / refCipherBS
		if blocks >= 1 && ob >= 1 {
			j := tm.A % blocks
			i := j
			if i >= ob || tm.Bit%2 == 1 {
				i = tm.B % ob
			}
			so, eo := blk(other, i)
			sd, ed := blk(d, j)
			if eo-so == ed-sd || j == blocks-1 {
				d = append(append(append([]byte{}, d[:sd]...), other[so:eo]...), d[ed:]...)
			}
		}
	case "header":
		if len(other) >= refHeader && len(d) >= refHeader {
			copy(d[:refHeader], other[:refHeader])
		}
	case "trunc":
		d = d[:tm.A%len(d)]
	case "truncblk":
		if blocks >= 1 {
			d = d[:refHeader+(tm.A%blocks)*refCipherBS]
		}
	case "extend":
		d = append(d, prng(uint64(tm.A), tm.N)...)
	case "zeroid":
		if len(d) >= refHeader {
			clear(d[2:refHeader])
		}
	case "tail": // the last block is cut to N bytes
		if blocks >= 1 {
			s, e := blk(d, blocks-1)
			d = d[:min(e, s+tm.N)]
		}
	case "addtail": // everything from some block on is replaced by N stray bytes
		if blocks >= 1 {
			_, e := blk(d, tm.A%blocks)
			d = append(d[:e:e], prng(uint64(tm.B), tm.N)...)
		}
	case "extendzero":
		d = append(d, make([]byte, tm.N)...)
	case "zeroblk":
		if blocks >= 1 {
			s, e := blk(d, tm.A%blocks)
			clear(d[s:e])
		}
	case "zeropart":
		s := tm.A % len(d)
		e := min(len(d), s+tm.N)
		clear(d[s:e])
	case "zeronoce":
		if blocks >= 1 {
			s, e := blk(d, tm.A%blocks)
			clear(d[s:min(e, s+16)])
		}
	case "swaphalf":
		if blocks >= 1 {
			s, e := blk(d, tm.A%blocks)
			h := (e - s) / 2
			x := append(append([]byte{}, d[s+h:e]...), d[s:s+h]...)
			copy(d[s:e], x)
		}
	case "drop":
		if blocks >= 1 {
			s, e := blk(d, tm.A%blocks)
			d = append(d[:s:s], d[e:]...)
		}
	case "dup":
		if blocks >= 1 {
			s, e := blk(d, tm.A%blocks)
			if e-s == refCipherBS {
				x := append([]byte{}, d[:e]...)
				x = append(x, d[s:]...)
				d = x
			}
		}
	case "version":
		if len(d) >= 2 {
			v := []int{0, 1, 3, 0x0200, 0x0102, 258, 65535}[tm.A%7]
			d[0], d[1] = byte(v>>8), byte(v)
		}
	}
	return d
}

func c04Exec(c c04Case, rec *Rec) error {
	vs := c.Vol
	vs.Tree = nil
	for i, f := range c.Files {
		vs.Tree = append(vs.Tree, TNode{Name: []byte(fmt.Sprintf("f%d", i)), Size: f.Size, Holes: f.Holes, Data: f.Data})
		if f.Zero {
			k := &vs.Tree[len(vs.Tree)-1]
			for b := 0; (b+1)*refPlainBS <= f.Size; b++ {
				k.Holes = append(k.Holes, b)
			}
		}
	}
	vs.Tree = append(vs.Tree, TNode{Name: []byte("canary"), Size: 9000})
	v := buildVol(vs)
	orig := make([][]byte, len(v.files))
	for i, f := range v.files {
		orig[i] = f.node.data
	}
	for i, f := range c.Files {
		if f.Of > 0 && f.Of <= i {
			orig[i] = orig[f.Of-1]
		}
		d := orig[i]
		for _, tm := range f.T {
			d = applyTamper(d, orig[(i+1)%len(orig)], tm)
		}
		v.files[i].node.data = d
	}
	ft, err := v.openTree()
	if err != nil {
		return err
	}
	var cl *sftp.Client
	if c.Sftp {
		h, err := v.openHandlers()
		if err != nil {
			return err
		}
		var stop func()
		cl, stop, err = sftpSession(h)
		if err != nil {
			return err
		}
		defer stop()
	}
	read := func(p string) ([]byte, error) {
		if cl == nil {
			return ft.ReadFile(p)
		}
		f, err := cl.Open(p)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		var b bytes.Buffer
		_, err = io.Copy(&b, struct{ io.Reader }{f})
		return b.Bytes(), err
	}
	for pass := 0; pass < 2; pass++ { // the second pass is answered from the caches
		for i, f := range v.files {
			d := f.node.data
			want, werr := v.ref.DecFile(d)
			got, gerr := read(f.path)
			kind := "untouched"
			if i < len(c.Files) && !bytes.Equal(d, orig[i]) {
				kind = c.Files[i].T[0].Kind
			}
			if len(d) > 0 && len(d) < refHeader {
				if gerr == nil && len(got) > 0 {
					return fmt.Errorf("%q: a %d-byte fragment was served as %d plaintext bytes", f.path, len(d), len(got))
				}
				continue
			}
			if werr != nil {
				rec.NonTrivial()
				rec.Label("rejected: " + kind)
				if gerr == nil {
					return fmt.Errorf("%q (%s, %d ciphertext bytes, flags %+v) is corrupt but was served as %d plaintext bytes", f.path, kind, len(d), vs.Flags, len(got))
				}
				if len(got) > 0 {
					return fmt.Errorf("%q (%s) is corrupt; the error came with %d plaintext bytes", f.path, kind, len(got))
				}
				continue
			}
			rec.Label("accepted: " + kind)
			if gerr != nil {
				return fmt.Errorf("%q (%s, %d ciphertext bytes, flags %+v) is authentic but the read failed: %v", f.path, kind, len(d), vs.Flags, gerr)
			}
			if df := diffBytes(got, want); df != "" {
				return fmt.Errorf("%q (%s, flags %+v): %s", f.path, kind, vs.Flags, df)
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C05

type hNode struct {
	Name []byte `json:"n"`
	// how the on-disk name is made: 0 raw bytes, 1 valid encrypted name of Name,
	// 2 base64 of Name, 3 base64 of a block-aligned blob of Len*16 bytes, 4 valid name, edited
	NK   int     `json:"nk"`
	Len  int     `json:"len,omitempty"`
	Type int     `json:"type"` // 0 file, 1 dir, 2 symlink, 3 device, 4 dir with file content
	Data []byte  `json:"data,omitempty"`
	DLen int     `json:"dlen,omitempty"` // extra content from prng
	Size int     `json:"size,omitempty"` // index into hSizes; 0 = honest
	IV   int     `json:"iv"`             // directories: length of the IV file, -1 none, -2 IV is a directory, -3 zero IV, -4 unreadable
	Vers bool    `json:"vers,omitempty"` // content starts with a plausible header
	Kids []hNode `json:"k,omitempty"`
}

type c05Case struct {
	Vol    VolSpec `json:"vol"`
	H      []hNode `json:"h"`
	RootIV int     `json:"rootiv"` // 0: hostile entries in the healthy root; 1: in their own directory
	Ghost  []int   `json:"ghost"`  // nth ReadFile/Stat/ReadDir call below the hostile entries fails
}

var hSizes = []int64{0, -1, 1, 17, 18, 19, 49, 50, 51, 4128, 1 << 31, 1 << 62, -1 << 63, 1<<63 - 1, -4096}

func genHNode(t *rapid.T, depth int) hNode {
	h := hNode{NK: rapid.IntRange(0, 4).Draw(t, "nk"), Type: rapid.IntRange(0, 4).Draw(t, "type"), Size: rapid.IntRange(0, len(hSizes)-1).Draw(t, "size")}
	if rapid.Bool().Draw(t, "honest") {
		h.Size = 0
	}
	switch h.NK {
	case 3:
		h.Len = rapid.SampledFrom([]int{1, 2, 16, 127, 128, 129, 130, 200, 1000}).Draw(t, "len")
		h.Name = rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "nm")
	case 0:
		h.Name = []byte(rapid.OneOf(rapid.SampledFrom([]string{"", ".", "..", "../x", "a/b", "/", "gocryptfs.diriv", "gocryptfs.conf", "gocryptfs.longname.x", "\x00", strings.Repeat("A", 4000), "====", "AAAAAAAAAAAAAAAAAAAAAA==\n", "AAAAAAAAAAAAAAAAAAAAAB=="}), rapid.StringN(0, 30, 60)).Draw(t, "nm"))
	default:
		h.Name = genName(t, "nm")
		if rapid.IntRange(0, 4).Draw(t, "evil") == 0 {
			h.Name = []byte(rapid.SampledFrom([]string{".", "..", "a/b", "../../etc/passwd", "/etc", "a\x00b", "\x00"}).Draw(t, "evilname"))
		}
	}
	switch h.Type {
	case 1:
		h.IV = rapid.SampledFrom([]int{-4, -3, -2, -1, 0, 1, 8, 15, 16, 16, 16, 17, 32, 100}).Draw(t, "iv")
		if depth < 2 {
			n := rapid.IntRange(0, 3).Draw(t, "nk2")
			for i := 0; i < n; i++ {
				h.Kids = append(h.Kids, genHNode(t, depth+1))
			}
		}
	default:
		h.Data = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "data")
		h.Vers = rapid.Bool().Draw(t, "vers")
		if rapid.IntRange(0, 2).Draw(t, "more") == 0 {
			if rapid.Bool().Draw(t, "only") {
				h.Data = nil
			}
			h.DLen = rapid.SampledFrom([]int{1, 13, 14, 15, 16, 17, 31, 32, 33, 4096, 4127, 4128, 4129, 4143, 4144, 4160, 4161, 9000}).Draw(t, "dlen")
		}
	}
	return h
}

func init() {
	reg(Prop{
		ID: "C05", Quick: 1600, Thorough: 30000,
		Rule:  "a case is a healthy volume plus a generated hostile part (arbitrary on-disk names, block-aligned blobs of any length, valid names of illegal plaintexts, missing, misshapen or unreadable directory IVs, arbitrary contents, absurd sizes and types, entries that vanish); every operation is run on every path that shows up; non-trivial = at least one hostile entry was decoded, read or listed; oracle: no crash, every request answered, only paths below the volume root requested from the remote, only legal names shown, healthy entries still correct",
		Setup: "the hostile remote speaks well-formed SFTP (a malformed SFTP byte stream is the client library's business)",
	}, func(t *rapid.T, tier Tier) c05Case {
		v := genVol(t)
		if v.Root == "/" || v.Root == "." {
			v.Root = "/vol"
		}
		v.Tree = genTree(t, treeOpt{depth: 1, breadth: 3, dirBias: 4, name: genName, size: genSmallSize})
		c := c05Case{Vol: v, RootIV: rapid.IntRange(0, 1).Draw(t, "place")}
		n := rapid.IntRange(1, 5).Draw(t, "nh")
		for i := 0; i < n; i++ {
			c.H = append(c.H, genHNode(t, 0))
		}
		c.Ghost = rapid.SliceOfN(rapid.IntRange(0, 30), 0, 3).Draw(t, "ghost")
		return c
	}, c05Exec)
}

func (v *Vol) hostile(d *MNode, iv []byte, h hNode, ctr *uint64) {
	*ctr = *ctr*6364136223846793005 + 1
	var name string
	b64 := base64.URLEncoding
	if v.spec.Flags.Raw64 {
		b64 = base64.RawURLEncoding
	}
	switch h.NK {
	case 0:
		name = string(h.Name)
	case 1:
		name = v.ref.EncName(string(h.Name), iv)
	case 2:
		name = b64.EncodeToString(h.Name)
	case 3:
		name = b64.EncodeToString(prng(*ctr^uint64(len(h.Name)), h.Len*16))
	case 4:
		x := []byte(v.ref.EncName(string(h.Name), iv))
		x[len(h.Name)%len(x)] ^= 1
		name = string(x)
	}
	n := d.add(&MNode{name: name, mode: 0o644})
	if h.Size > 0 {
		s := hSizes[h.Size]
		n.size = &s
	}
	switch h.Type {
	case 1:
		n.dir = true
		n.mode = 0o755
		div := prng(*ctr, 16)
		switch {
		case h.IV == -1:
		case h.IV == -2:
			n.add(&MNode{name: "gocryptfs.diriv", dir: true, mode: 0o755})
		case h.IV == -3:
			div = make([]byte, 16)
			n.add(&MNode{name: "gocryptfs.diriv", data: div, mode: 0o444})
		case h.IV == -4:
			n.add(&MNode{name: "gocryptfs.diriv", data: div, mode: 0o444 | os.ModeIrregular})
		default:
			n.add(&MNode{name: "gocryptfs.diriv", data: prng(*ctr, h.IV), mode: 0o444})
		}
		for _, k := range h.Kids {
			v.hostile(n, div, k, ctr)
		}
	case 2:
		n.mode |= os.ModeSymlink
	case 3:
		n.mode |= os.ModeDevice
	case 4:
		n.mode |= os.ModeDir // claims to be a directory
	}
	if h.Type != 1 {
		if h.Vers {
			n.data = append([]byte{0, 2}, prng(*ctr, 16)...)
		}
		n.data = append(append(n.data, h.Data...), prng(*ctr, h.DLen)...)
	}
}

func c05Exec(c c05Case, rec *Rec) error {
	v := buildVol(c.Vol)
	ctr := c.Vol.Seed
	hd, hiv := v.root.node, v.root.iv
	if c.RootIV == 1 {
		hiv = prng(ctr^5, 16)
		hd = v.root.node.add(&MNode{name: v.ref.EncName("hostile-dir-xyz", v.root.iv), dir: true, mode: 0o755})
		hd.add(&MNode{name: "gocryptfs.diriv", data: hiv, mode: 0o444})
	}
	for _, h := range c.H {
		v.hostile(hd, hiv, h, &ctr)
	}
	v.fs.shuffle(c.Vol.Seed)
	root := v.root.cpath
	var outside string
	ghost := map[int]bool{}
	for _, g := range c.Ghost {
		ghost[g] = true
	}
	healthyC := map[string]bool{root: true, path.Join(root, "gocryptfs.diriv"): true, path.Join(root, "gocryptfs.conf"): true}
	for _, n := range v.all {
		healthyC[n.cpath] = true
		healthyC[path.Join(n.cpath, "gocryptfs.diriv")] = true
	}
	calls := 0
	v.fs.hook = func(op, p string) error {
		v.fs.mu.Lock()
		defer v.fs.mu.Unlock()
		if p != root && !strings.HasPrefix(p, root+"/") {
			outside = op + " " + p
		}
		if healthyC[p] {
			return nil
		}
		calls++
		if ghost[calls] {
			return os.ErrNotExist
		}
		return nil
	}
	ft, err := v.openTree()
	if err != nil {
		return err
	}
	h, err := v.openHandlers()
	if err != nil {
		return err
	}
	cl, stop, err := sftpSession(h)
	if err != nil {
		return err
	}
	defer stop()
	healthy := map[string]*PNode{}
	for _, n := range v.all {
		healthy[n.path] = n
	}
	shadowed := func(n *PNode) bool {
		for ; n != nil && n.path != "/"; n = healthy[path.Dir(n.path)] {
			if firstDecoding(v, n) != n.node {
				return true
			}
		}
		return false
	}
	var walk func(p string, depth int) error
	walk = func(p string, depth int) error {
		ls, err := ft.ReadDir(p)
		if err != nil {
			rec.Label("listing refused")
			if p == "/" {
				return fmt.Errorf("the healthy root cannot be listed: %v", err)
			}
			if n := healthy[p]; n != nil && n.dir && !shadowed(n) {
				return fmt.Errorf("the healthy directory %q cannot be listed: %v", p, err)
			}
			return nil
		}
		_, _ = cl.ReadDir(p)
		for _, e := range ls {
			nm := e.Name()
			if nm == "" || nm == "." || nm == ".." || strings.ContainsAny(nm, "/\x00") {
				return fmt.Errorf("listing of %q shows the illegal name %q", p, nm)
			}
			q := path.Join(p, nm)
			if healthy[q] == nil {
				rec.NonTrivial()
				rec.Label("hostile entry visible")
			}
			_, _ = ft.Stat(q)
			_, _ = cl.Stat(q)
			b, err := ft.ReadFile(q)
			if healthy[q] == nil && err == nil && !e.IsDir() {
				rec.Label("hostile file read without error")
				_ = b
			}
			if f, err := cl.Open(q); err == nil {
				_, _ = io.Copy(io.Discard, struct{ io.Reader }{f})
				_ = f.Close()
			}
			if depth < 4 {
				if err := walk(q, depth+1); err != nil {
					return err
				}
			}
		}
		if len(ls) < len(c.H) {
			rec.NonTrivial() // some hostile entry was skipped
			rec.Label("hostile entry hidden")
		}
		return nil
	}
	if err := walk("/", 0); err != nil {
		return err
	}
	for _, p := range []string{"/../../etc/passwd", "/..", "/a/../../b", "/hostile-dir-xyz/../..", "/\x00", "/" + strings.Repeat("x", 5000), strings.Repeat("/a", 300)} {
		_, _ = ft.ReadFile(p)
		_, _ = ft.Stat(p)
		_, _ = ft.ReadDir(p)
	}
	// the healthy part is still served correctly
	ls, err := ft.ReadDir("/")
	if err != nil {
		return fmt.Errorf("after hostile input: the root cannot be listed: %v", err)
	}
	shown := map[string]bool{}
	for _, x := range ls {
		shown[x.Name()] = true
	}
	for _, k := range sortedNames(v.root.kids) {
		if !shown[k] {
			return fmt.Errorf("with hostile entries beside it, %q is missing from the listing of the root", k)
		}
	}
	for _, n := range v.all {
		if shadowed(n) {
			continue // a hostile entry that decrypts to the very same name comes first
		}
		if n.dir {
			ls, err := ft.ReadDir(n.path)
			if err != nil {
				return fmt.Errorf("after hostile input: ReadDir(%q): %v", n.path, err)
			}
			if err := cmpNames(n.path, names(ls), sortedNames(n.kids)); err != nil {
				return fmt.Errorf("after hostile input: %v", err)
			}
			continue
		}
		b, err := ft.ReadFile(n.path)
		if err != nil {
			return fmt.Errorf("after hostile input: ReadFile(%q): %v", n.path, err)
		}
		if d := diffBytes(b, n.content); d != "" {
			return fmt.Errorf("after hostile input: ReadFile(%q): %s", n.path, d)
		}
	}
	if outside != "" {
		return fmt.Errorf("the remote was asked for a path outside the volume: %s", outside)
	}
	return nil
}

// firstDecoding finds the first entry of n's directory that decrypts to n's name.
func firstDecoding(v *Vol, n *PNode) *MNode {
	parent := v.fs.lookup(path.Dir(n.cpath))
	var iv []byte
	if k := parent.kid("gocryptfs.diriv"); k != nil {
		iv = k.data
	}
	for _, k := range parent.kids {
		if s, ok := v.ref.DecName(k.name, iv); ok && s == path.Base(n.path) {
			return k
		}
	}
	return nil
}
