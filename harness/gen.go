package main

import (
	"fmt"
	"os"
	"path"
	"strings"

	"pgregory.net/rapid"
)

// boundary sizes of the format: block, request-buffer and batch boundaries
var edgeSizes = []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 4064, 4095, 4096, 4097, 4128, 8191, 8192, 8193, 12288,
	32767, 32768, 32769, 65536, 126976, 131071, 131072, 131073, 135167, 135168, 135169, 139264}

func genSize(t *rapid.T, label string, maxBig int) int {
	switch rapid.IntRange(0, 9).Draw(t, label+"/kind") {
	case 0, 1, 2, 3:
		return rapid.SampledFrom(edgeSizes).Draw(t, label)
	case 4, 5, 6:
		return rapid.IntRange(0, 300).Draw(t, label)
	case 7, 8:
		return rapid.IntRange(0, 20000).Draw(t, label)
	default:
		return rapid.IntRange(0, maxBig).Draw(t, label)
	}
}

func genSmallSize(t *rapid.T, label string) int {
	if rapid.IntRange(0, 5).Draw(t, label+"/kind") == 0 {
		return rapid.SampledFrom([]int{0, 1, 4095, 4096, 4097, 8192}).Draw(t, label)
	}
	return rapid.IntRange(0, 200).Draw(t, label)
}

var oddNames = []string{
	"a", "b", "...", "..a", ".a", "a.", " ", "  ", "a b", "-", "--", "~", "*", "?", "\\", "a\\b", "\n", "a\nb", "\t", "\x01", "\x7f", "\xff", "\xff\xfe", "é", "é", "日本語", "🦊",
	"gocryptfs.conf", "gocryptfs.diriv", "gocryptfs.longname.abc", "gocryptfs.longname.abc.name", ".name", "gocryptfs.", "CON", "%2F", "%00", "a+b", "a=b", "AAAAAAAAAAAAAAAAAAAAAA==", "AAAAAAAAAAAAAAAAAAAAAA", "aA", "Aa", "aa", "AA", "a:b", "'", "\"", "${HOME}", "\x10", "\x0f\x0f", "a\x01",
}

// Beginnings and ends that some program, file system or format treats
// specially; the proxy must not.
var (
	namePrefixes = []string{".", "..", ".#", "#", "~", "~$", "._", ".~", "$", "-", "--", "@", "%", "+", "=", ":", "\\", " ", "\t", "\n", "!", "&", "(", "[", "{", "_", "__", "gocryptfs.", "gocryptfs.longname.", "gocryptfs", ".gocryptfs", ".nfs", ".fuse_hidden", ".git", ".tmp", "tmp", ".Trash", ".DS_Store", ".svn", "lost+found", "Thumbs.db", "desktop.ini", ".sync", ".stversions", "\ufeff", "\u200b", "\u202e"}
	nameSuffixes = []string{".", "..", "~", "#", "=", "==", ".name", ".conf", ".diriv", ".tmp", ".bak", ".swp", ".part", ".partial", ".crdownload", ".lock", ".lnk", ".gz", ".old", ".orig", ",v", ":", "\\", " ", "  ", "\t", "\n", "\r", "\r\n", "$", "%", "*", "?", "-", "_", "\x01", "\x02", "\x0f", "\x10", "\x7f", "\x80", "\xff", "\u0301", "\u200d"}
)

// genName draws a legal file name of at most 175 bytes (longer ones need the
// long-name feature, which the README excludes).
func genName(t *rapid.T, label string) []byte {
	var s []byte
	switch rapid.IntRange(0, 11).Draw(t, label+"/kind") {
	case 0, 1:
		s = []byte(rapid.SampledFrom(oddNames).Draw(t, label))
	case 10:
		s = []byte(rapid.SampledFrom(namePrefixes).Draw(t, label+"/pre") + rapid.StringMatching(`[a-dA-D0-9]{0,3}`).Draw(t, label))
	case 11:
		s = []byte(rapid.StringMatching(`[a-dA-D0-9]{0,3}`).Draw(t, label) + rapid.SampledFrom(nameSuffixes).Draw(t, label+"/suf"))
	case 2, 3, 4:
		s = []byte(rapid.StringMatching(`[a-d]{1,3}`).Draw(t, label))
	case 5, 6:
		n := rapid.SampledFrom([]int{1, 2, 14, 15, 16, 17, 30, 31, 32, 33, 47, 48, 63, 64, 79, 80, 127, 128, 143, 144, 159, 160, 174, 175}).Draw(t, label+"/len")
		c := rapid.Byte().Draw(t, label+"/c")
		s = []byte(strings.Repeat(string([]byte{c}), n))
	case 7:
		s = []byte(rapid.StringN(1, 40, 175).Draw(t, label))
	default:
		s = rapid.SliceOfN(rapid.Byte(), 1, 175).Draw(t, label)
	}
	for i, c := range s {
		if c == 0 || c == '/' {
			s[i] = 'x'
		}
	}
	if len(s) > 175 {
		s = s[:175]
	}
	if len(s) == 0 || string(s) == "." || string(s) == ".." {
		s = []byte("dot")
	}
	return s
}

func genFlags(t *rapid.T) VolFlags {
	return VolFlags{
		HKDF:      rapid.Bool().Draw(t, "hkdf"),
		Raw64:     rapid.Bool().Draw(t, "raw64"),
		AESSIV:    rapid.IntRange(0, 2).Draw(t, "siv") == 2,
		LongNames: rapid.Bool().Draw(t, "longnames"),
	}
}

func genPw(t *rapid.T) []byte {
	b := rapid.SliceOfN(rapid.Byte(), 1, 24).Draw(t, "pw")
	return b
}

// volRoots are places of the volume on the remote, as they may be configured.
var volRoots = []string{"/vol", "/", "/data/enc/", "/a b/c", "/vol//x/../x", "vol", "./v/", ".", "../enc", "~/v", "/%s/$HOME/ü", "/vol/./gocryptfs.conf.d", "/aaaa/bbbb/cccc/dddd/eeee/ffff", "-v"}

func genVol(t *rapid.T) VolSpec {
	return VolSpec{
		Flags:   genFlags(t),
		Seed:    rapid.Uint64().Draw(t, "seed"),
		Pw:      genPw(t),
		Root:    rapid.SampledFrom(volRoots).Draw(t, "root"),
		Workers: rapid.SampledFrom([]int{1, 2, 8, 32}).Draw(t, "workers"),
		Rev:     rapid.Bool().Draw(t, "rev"),
	}
}

var genModes = []uint32{0o644, 0o600, 0o755, 0o444, 0o777, 0o400, 0o111, 0o640, 0o4755, 0o2755, 0o1777, 0o6711, 0o7777, 0o2644}

type treeOpt struct {
	depth, breadth int
	size           func(t *rapid.T, label string) int
	name           func(t *rapid.T, label string) []byte
	dirBias        int  // out of 10
	random         bool // file contents are random bytes throughout
	seen           *[]TNode
}

func genTree(t *rapid.T, o treeOpt) []TNode {
	o.seen = &[]TNode{}
	return genTreeAt(t, o, "t", 0)
}

func genTreeAt(t *rapid.T, o treeOpt, label string, depth int) []TNode {
	n := rapid.IntRange(0, o.breadth).Draw(t, label+"/n")
	if depth == 0 && n == 0 {
		n = 1
	}
	var out []TNode
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("%s.%d", label, i)
		k := TNode{Name: o.name(t, l+"/name"), Mode: rapid.SampledFrom(genModes).Draw(t, l+"/mode"), MTime: genMTime(t, l+"/mtime")}
		if len(out) > 0 && rapid.IntRange(0, 7).Draw(t, l+"/like") == 0 {
			if b := nameLike(t, l, out[rapid.IntRange(0, len(out)-1).Draw(t, l+"/sib")].Name); b != nil {
				k.Name = b
			}
		}
		if depth < o.depth && rapid.IntRange(0, 9).Draw(t, l+"/dir") < o.dirBias {
			k.Dir = true
			k.Kids = genTreeAt(t, o, l, depth+1)
		} else {
			if old := *o.seen; len(old) > 0 && rapid.IntRange(0, 3).Draw(t, l+"/twin") == 0 {
				// the name and size of a file in another directory
				tw := old[rapid.IntRange(0, len(old)-1).Draw(t, l+"/of")]
				k.Name, k.Size, k.Fill = tw.Name, tw.Size, tw.Fill
				k.SameID = rapid.Bool().Draw(t, l+"/same id")
				if rapid.Bool().Draw(t, l+"/same times") {
					k.Mode, k.MTime = tw.Mode, tw.MTime
				}
			} else {
				k.Size = o.size(t, l+"/size")
				if !o.random && rapid.IntRange(0, 2).Draw(t, l+"/filled") == 0 {
					k.Fill = rapid.IntRange(1, nFills-1).Draw(t, l+"/fill")
				}
			}
			k.Holes = genHoles(t, l+"/holes", k.Size)
			if k.Size == 0 {
				k.Hdr = rapid.Bool().Draw(t, l+"/hdr")
			}
			*o.seen = append(*o.seen, k)
		}
		out = append(out, k)
	}
	return out
}

// nameLike derives another legal name from one: one that shares most of it.
func nameLike(t *rapid.T, l string, b []byte) []byte {
	b = append([]byte{}, b...)
	i := rapid.IntRange(0, len(b)-1).Draw(t, l+"/like/at")
	switch rapid.IntRange(0, 5).Draw(t, l+"/like/how") {
	case 0:
		b[i]++
	case 1:
		b[len(b)-1]++
	case 2:
		b = append(b, b[i])
	case 3:
		b = b[:len(b)-1]
	case 4: // long, with a common beginning
		for len(b) < 150 {
			b = append(b, b...)
		}
		b = b[:150]
		b[149-i%20] ^= 1
	case 5:
		b[i] ^= 0x20
	}
	if s := string(b); len(b) == 0 || len(b) > 170 || s == "." || s == ".." || strings.ContainsAny(s, "/\x00") {
		return nil
	}
	return b
}

func genMTime(t *rapid.T, label string) int64 {
	if rapid.IntRange(0, 3).Draw(t, label+"/kind") == 0 {
		return rapid.SampledFrom([]int64{0, 1, 1 << 31, 1<<32 - 1, 1<<31 - 1}).Draw(t, label)
	}
	return rapid.Int64Range(0, 2000000000).Draw(t, label)
}

func genHoles(t *rapid.T, label string, size int) []int {
	full := size / refPlainBS
	if full == 0 || rapid.IntRange(0, 3).Draw(t, label+"/kind") != 0 {
		return nil
	}
	return rapid.SliceOfN(rapid.IntRange(0, full-1), 1, 4).Draw(t, label)
}

// spell returns another spelling of an absolute plaintext path.
func spell(p string, kind int) string {
	switch kind % 8 {
	case 1:
		return strings.ReplaceAll(p, "/", "//")
	case 2:
		return p + "/"
	case 3:
		return "/." + p
	case 4:
		return path.Dir(p) + "/./" + path.Base(p)
	case 5:
		if p == "/" {
			return "/.."
		}
		return "/../" + p[1:] + "/../" + path.Base(p)
	case 6:
		return p + "/."
	case 7:
		return p + "/no/.././../" + path.Base(p) + "/x/.."
	}
	return p
}

// nameOf is the name an SFTP client's Stat of the spelled path should report
// for p: the client library itself takes it from the path it was given.
func nameOf(fi os.FileInfo, spelled, p string) string {
	if fi.Name() == path.Base(spelled) {
		return path.Base(p)
	}
	return fi.Name()
}

type namedInfo struct {
	os.FileInfo
	name string
}

func (n namedInfo) Name() string { return n.name }

// genTyped draws a passphrase that can be typed at a terminal.
func genTyped(t *rapid.T, l string) []byte {
	switch rapid.IntRange(0, 7).Draw(t, l+"/k") {
	case 0:
		return []byte(rapid.SampledFrom([]string{"a", " ", "  x ", "pässwörd", "日本語", "\"quoted\"", "$HOME `id` \\n", "-----BEGIN", "y", "%s%d"}).Draw(t, l))
	case 1:
		return []byte(strings.Repeat("k", rapid.SampledFrom([]int{1, 63, 64, 255, 1000, 3000}).Draw(t, l+"/n")))
	}
	b := rapid.SliceOfN(rapid.ByteRange(' ', '~'), 1, 24).Draw(t, l)
	return b
}
