# ---- C10
seed('fastcache-clear-count','C10',
 'a cache that was cleared after it had held entries, then filled again beyond what is left of the old count',
 'Clear forgets the entries but not their number, so that afterwards the cache evicts before it is full (and, cleared when full, has no entry to evict: nil dereference on the next Store).',
 'filetree','''
package filetree

import (
	"fmt"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	for _, before := range []int{1, 3, 4} {
		c := NewFastCache(4)
		for i := 0; i < before; i++ {
			c.Store(fmt.Sprint("/old", i), "x")
		}
		c.Clear()
		for i := 0; i < 4; i++ {
			c.Store(fmt.Sprint("/new", i), fmt.Sprint("/c", i))
		}
		for i := 0; i < 4; i++ {
			if d, ok := c.Find(fmt.Sprint("/new", i)); !ok || d.CiphertextPath != fmt.Sprint("/c", i) {
				t.Fatalf("after clearing a cache of %d entries, entry %d of 4 is gone", before, i)
			}
		}
	}
}
''',(FC,'''	f.storage = make(map[string]*DirMapping, f.cacheSize*2)
	f.count = 0
''','''	f.storage = make(map[string]*DirMapping, f.cacheSize*2)
	if f.count > f.cacheSize {
		f.count = f.cacheSize
	}
'''))
# ---- C02
seed('fastcache-short-key','C02',
 'two directories with the same path suffix at different depths, one looked up before the other while it is still cached',
 'the directory cache is filled under a path that leaves out the grandparent, so one directory is shown the contents of another that shares its last two components.',
 'filetree','''
package filetree

import "testing"

func TestSeededDemo(t *testing.T) {
	v := newDemoVol(t)
	v.mkdir("/a")
	v.mkdir("/a/x")
	v.mkdir("/a/x/y")
	v.write("/a/x/y/inner", []byte("inner"))
	v.mkdir("/x")
	v.mkdir("/x/y")
	v.write("/x/y/outer", []byte("outer"))
	ft := v.open(t)
	if b, err := ft.ReadFile("/a/x/y/inner"); err != nil || string(b) != "inner" {
		t.Fatalf("inner: %q %v", b, err)
	}
	if b, err := ft.ReadFile("/x/y/outer"); err != nil || string(b) != "outer" {
		t.Fatalf("outer: %q %v", b, err)
	}
	l, err := ft.ReadDir("/x/y")
	if err != nil || len(l) != 1 || l[0].Name() != "outer" {
		t.Fatalf("listing of /x/y: %v %v", l, err)
	}
}
''',(FT,"	f.fastCache.Store(cleanPath, ciphertextPath)\n","	f.fastCache.Store(filepath.Join(\"/\", filepath.Base(plainParentPath), plainDirName), ciphertextPath)\n"),vol=True)
# ---- C03
seed('listing-size-32bit','C03',
 'a file of 4 GiB or more, seen in a directory listing (stat is right)',
 'the size in a listing is computed from the low 32 bits of the stored size.',
 'filetree','''
package filetree

import "testing"

func TestSeededDemo(t *testing.T) {
	v := newDemoVol(t)
	c := v.write("/big", []byte("x"))
	plain := int64(5 << 30)
	v.sizes[c] = int64(v.enc.PlainSizeToCipherSize(uint64(plain)))
	ft := v.open(t)
	l, err := ft.ReadDir("/")
	if err != nil || len(l) != 1 {
		t.Fatal(l, err)
	}
	if l[0].Size() != plain {
		t.Fatalf("listed size %d, want %d", l[0].Size(), plain)
	}
	i, err := ft.Stat("/big")
	if err != nil || i.Size() != plain {
		t.Fatal(i, err)
	}
}
''',(FT,"			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),","			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(uint32(info.Size())))),"),vol=True)
# ---- C04
seed('hole-of-any-length','C04',
 'the last block of a file overwritten with as many zero bytes as it had',
 'a short last block of zero bytes is taken for a file hole and served as plaintext zeros instead of being reported.',
 'filetree','''
package filetree

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	v := newDemoVol(t)
	data := bytes.Repeat([]byte("secret, "), 700)
	c := v.write("/f", data)
	b := v.files[c]
	last := 18 + 4128
	for i := last; i < len(b); i++ {
		b[i] = 0
	}
	ft := v.open(t)
	if got, err := ft.ReadFile("/f"); err == nil {
		t.Fatalf("a file with an overwritten last block was served: %d bytes, same as written: %v", len(got), bytes.Equal(got, data))
	}
}
''',(CE,"	if bytes.Equal(ciphertext, be.allZeroBlock) {","	if bytes.Equal(ciphertext, be.allZeroBlock[:len(ciphertext)]) {"),vol=True)
# ---- C05
seed('name-leading-slash','C05',
 'a remote that offers an entry whose encrypted name decrypts to a name starting with a slash',
 'such a name is shown to clients instead of being hidden, so a listing contains an entry that is a path.',
 'filetree','''
package filetree

import (
	"strings"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	v := newDemoVol(t)
	v.write("/good", []byte("x"))
	evil := v.names.EncryptName("/etc", v.files["/vol/gocryptfs.diriv"])
	v.files["/vol/"+evil] = []byte{}
	ft := v.open(t)
	l, err := ft.ReadDir("/")
	if err != nil {
		t.Fatal(err)
	}
	for _, i := range l {
		if strings.Contains(i.Name(), "/") {
			t.Fatalf("listing shows a name with a slash: %q", i.Name())
		}
	}
}
''',(NM,"	if bytes.Contains(bin, []byte{0}) || bytes.Contains(bin, []byte(\"/\")) {","	if bytes.Contains(bin, []byte{0}) || bytes.Contains(bin[1:], []byte(\"/\")) {"),vol=True)
# ---- C06
seed('setstat-times-ok','C06',
 'a client that sets attributes which are already set that way (times or mode equal to the current ones)',
 'setting attributes of a path that exists is reported as done when the path resolves to a directory, though nothing was changed.',
 'handlers','''
package handlers

import (
	"crypto/sha256"
	"io"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/nametransform"
	"github.com/pkg/sftp"
)

type localFS struct{}

func (localFS) ReadFile(p string) ([]byte, error)         { return ioutil.ReadFile(p) }
func (localFS) Stat(p string) (os.FileInfo, error)        { return os.Stat(p) }
func (localFS) ReadDir(p string) ([]os.FileInfo, error)   { return ioutil.ReadDir(p) }

func TestSeededDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	conf := filepath.Join(dir, "gocryptfs.conf")
	if err := configfile.Create(conf, []byte("pw"), false, 10, "demo", false, false, nil); err != nil {
		t.Fatal(err)
	}
	key, _, err := configfile.LoadAndDecrypt(conf, []byte("pw"))
	if err != nil {
		t.Fatal(err)
	}
	cc := cryptocore.New(key, cryptocore.BackendGoGCM, contentenc.DefaultIVBits, true, false)
	n := nametransform.New(cc.EMECipher, true, true)
	iv := sha256.Sum256([]byte("iv"))
	if err := ioutil.WriteFile(filepath.Join(dir, "gocryptfs.diriv"), iv[:16], 0600); err != nil {
		t.Fatal(err)
	}
	if err := os.Mkdir(filepath.Join(dir, n.EncryptName("d", iv[:16])), 0700); err != nil {
		t.Fatal(err)
	}
	h, err := DecryptHandler(dir, []byte("pw"), 2, localFS{})
	if err != nil {
		t.Fatal(err)
	}
	a, b := net.Pipe()
	srv := sftp.NewRequestServer(a, h)
	go func() { _ = srv.Serve() }()
	cl, err := sftp.NewClientPipe(io.Reader(b), b)
	if err != nil {
		t.Fatal(err)
	}
	if i, err := cl.Stat("/d"); err != nil || !i.IsDir() {
		t.Fatal(i, err)
	}
	when := time.Unix(1000000000, 0)
	if err := cl.Chtimes("/d", when, when); err == nil {
		t.Fatal("setting the times of a directory was reported as done")
	}
}
''',(HD,'''		return fmt.Errorf("Setstat not supported. path: %s", req.Filepath)
''','''		if info, err := p.ft.Stat(req.Filepath); err != nil || !info.IsDir() {
			return fmt.Errorf("Setstat not supported. path: %s", req.Filepath)
		}
'''))
# ---- C07
seed('name-cache-key','C07',
 'the same encrypted name looked up under two directory IVs whose hashes share their top byte',
 'the cached decrypted name of one directory is served for another directory.',
 'requester','''
package requester

import (
	"fmt"
	"testing"
)

type demoDec struct{}

func (demoDec) DecryptName(n string, iv []byte) (string, error) {
	return fmt.Sprintf("%s under %x", n, iv), nil
}

func TestSeededDemo(t *testing.T) {
	r := New(4, nil, demoDec{})
	r.Start()
	defer r.Stop()
	for i := 0; i < 5000; i++ {
		iv := []byte(fmt.Sprintf("%016d", i))
		want := fmt.Sprintf("name under %x", iv)
		if got, err := r.DecryptName("name", iv); err != nil || got != want {
			t.Fatalf("got %q %v, want %q", got, err, want)
		}
	}
}
''',(CK,'siphash.Hash(sipHashKey1, sipHashKey2, b))','uint16(siphash.Hash(sipHashKey1, sipHashKey2, b)))'))
# ---- C07 two sites
seed('shared-cache','C07',
 'a path that is read both as a file and as a directory listing',
 'files and directory listings share one cache, so the second kind of request is answered with the first kind of value (a type assertion panic).',
 'requester','''
package requester

import (
	"errors"
	"os"
	"testing"
)

type demoBack struct{}

func (demoBack) ReadFile(p string) ([]byte, error) { return []byte(p), nil }
func (demoBack) ReadDir(p string) ([]os.FileInfo, error) {
	return nil, errors.New("not a directory")
}

func TestSeededDemo(t *testing.T) {
	r := New(2, demoBack{}, nil)
	r.Start()
	defer r.Stop()
	if b, err := r.ReadFile("/p"); err != nil || string(b) != "/p" {
		t.Fatal(b, err)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				t.Fatalf("panic: %v", x)
			}
		}()
		if l, err := r.ReadDir("/p"); err == nil {
			t.Fatalf("a directory listing for a file: %v", l)
		}
	}()
}
''',(MR,'''	case workReadFile:
		cache = r.fileCache
	case workReadDir:
		cache = r.dirCache
''','''	case workReadFile, workReadDir:
		cache = r.fileCache
'''),(RQ,"			r.performRequestAndCache(w.arg1, num, r.dirCache, w.respChan,","			r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan,"))
# ---- C08
seed('missing-dir-empty','C08',
 'a directory listing that the remote answers with "no such file"',
 'the failed listing is reported as an empty directory.',
 'requester','''
package requester

import (
	"os"
	"testing"
)

type demoBack struct{}

func (demoBack) ReadFile(p string) ([]byte, error)       { return nil, os.ErrNotExist }
func (demoBack) ReadDir(p string) ([]os.FileInfo, error) { return nil, os.ErrNotExist }

func TestSeededDemo(t *testing.T) {
	r := New(2, demoBack{}, nil)
	r.Start()
	defer r.Stop()
	for i := 0; i < 3; i++ {
		if l, err := r.ReadDir("/gone"); err == nil {
			t.Fatalf("a failed listing was reported as %v", l)
		}
	}
}
''',('requester/readdir.go','''		return d.([]os.FileInfo), err
	}
	return nil, err
''','''		return d.([]os.FileInfo), err
	}
	if os.IsNotExist(err) {
		err = nil
	}
	return nil, err
'''))
# ---- C09
seed('worker-retires','C09',
 'a burst of requests that fills the work queue while the remote is slow',
 'a worker that finds the queue full after its request is done retires, so after a burst fewer (finally no) workers are left and later requests are not answered.',
 'requester',"""
package requester

import (
	"fmt"
	"os"
	"testing"
	"time"
)

type slowBack struct{}

func (slowBack) ReadFile(p string) ([]byte, error) {
	if p == "/slow" {
		time.Sleep(time.Second)
	}
	return []byte(p), nil
}
func (slowBack) ReadDir(p string) ([]os.FileInfo, error) { return nil, nil }

func TestSeededDemo(t *testing.T) {
	r := New(1, slowBack{}, nil)
	r.Start()
	const n = 1500
	done := make(chan error, n+1)
	go func() {
		_, err := r.ReadFile("/slow")
		done <- err
	}()
	time.Sleep(300 * time.Millisecond)
	for i := 0; i < n; i++ {
		go func(i int) {
			_, err := r.ReadFile(fmt.Sprint("/", i))
			done <- err
		}(i)
	}
	for i := 0; i <= n; i++ {
		select {
		case err := <-done:
			if err != nil {
				t.Fatal(err)
			}
		case <-time.After(40 * time.Second):
			t.Fatalf("only %d of %d requests were answered", i, n+1)
		}
	}
}
""",(RQ,"""		if !ok {
			return
		}
	}
""","""		if !ok || len(r.workQueue) == cap(r.workQueue) {
			return
		}
	}
"""))
# ---- C11
seed('longname-hash-prefix','C11',
 'two long names that share their first 255 bytes',
 'the hash of a long name covers only its first 255 bytes, so different long names get the same file name.',
 'gocrypt/nametransform','''
package nametransform

import (
	"strings"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	n := New(nil, true, true)
	a := strings.Repeat("x", 300) + "a"
	b := strings.Repeat("x", 300) + "b"
	if n.HashLongName(a) == n.HashLongName(b) {
		t.Fatalf("two long names have the same hash %s", n.HashLongName(a))
	}
}
''',(LN,'''	hashBin := sha256.Sum256([]byte(name))
''','''	if len(name) > NameMax {
		name = name[:NameMax]
	}
	hashBin := sha256.Sum256([]byte(name))
'''))
# ---- C12
seed('padding-first-byte','C12',
 'an encrypted name whose decrypted padding is wrong only in its first byte',
 'the first padding byte is not checked, so a malformed name is decrypted instead of refused.',
 'gocrypt/nametransform','''
package nametransform

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	b := append(bytes.Repeat([]byte{'a'}, 11), 7, 5, 5, 5, 5)
	if out, err := unPad16(b); err == nil {
		t.Fatalf("malformed padding accepted: %q", out)
	}
	b = append(bytes.Repeat([]byte{'a'}, 11), 5, 5, 5, 5, 5)
	if out, err := unPad16(b); err != nil || len(out) != 11 {
		t.Fatalf("%q %v", out, err)
	}
}
''',(PD,"	for i := oldLen - padLen; i < oldLen; i++ {","	for i := oldLen - 1; i > oldLen-padLen; i-- {"))
# ---- C13
seed('parallel-blockno','C13',
 'a write of at least 32 blocks (the parallel path) whose number of blocks divided by two is odd',
 'the second half of the blocks is numbered one too low, so a file written in one piece cannot be decrypted in another.',
 'gocrypt/contentenc','''
package contentenc

import (
	"bytes"
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestSeededDemo(t *testing.T) {
	cc := cryptocore.New(bytes.Repeat([]byte{7}, cryptocore.KeyLen), cryptocore.BackendGoGCM, DefaultIVBits, true, false)
	be := New(cc, DefaultBS, false)
	id := bytes.Repeat([]byte{9}, 16)
	for _, n := range []int{1, 31, 32, 33, 34, 35, 36, 50} {
		var in [][]byte
		var want []byte
		for i := 0; i < n; i++ {
			b := bytes.Repeat([]byte{byte(i)}, DefaultBS)
			in = append(in, b)
			want = append(want, b...)
		}
		c := be.EncryptBlocks(in, 5, id)
		p, err := be.DecryptBlocks(c, 5, id)
		if err != nil || !bytes.Equal(p, want) {
			t.Fatalf("%d blocks: %v", n, err)
		}
	}
}
''',(CE,"firstBlockNo+uint64(low), fileID)","firstBlockNo+uint64(low)&^1, fileID)"))
# ---- C14
seed('ad-lost-idbyte','C14',
 'two files whose random IDs differ only in the last byte',
 'the last byte of the file ID is not authenticated, so a block of one file decrypts in the other.',
 'gocrypt/contentenc','''
package contentenc

import (
	"bytes"
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestSeededDemo(t *testing.T) {
	cc := cryptocore.New(bytes.Repeat([]byte{7}, cryptocore.KeyLen), cryptocore.BackendGoGCM, DefaultIVBits, true, false)
	be := New(cc, DefaultBS, false)
	id := bytes.Repeat([]byte{9}, 16)
	c := be.EncryptBlock([]byte("hello"), 3, id)
	if p, err := be.DecryptBlock(c, 3, id); err != nil || string(p) != "hello" {
		t.Fatal(p, err)
	}
	for i := range id {
		other := append([]byte{}, id...)
		other[i] ^= 1
		if p, err := be.DecryptBlock(c, 3, other); err == nil {
			t.Fatalf("a block decrypted under another file ID (byte %d changed): %q", i, p)
		}
	}
}
''',(CE,"	aData = append(aData, fileID...)\n","	aData = aData[:lenUint64+len(fileID)]\n	copy(aData[lenUint64:], fileID[:len(fileID)-len(fileID)/headerIDLen])\n"))
# ---- C15
seed('joint-range-short','C15',
 'a range that ends inside a block',
 'the joint plaintext range of a set of blocks ends where the request ends instead of at the block boundary.',
 'gocrypt/contentenc','''
package contentenc

import (
	"bytes"
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestSeededDemo(t *testing.T) {
	cc := cryptocore.New(bytes.Repeat([]byte{7}, cryptocore.KeyLen), cryptocore.BackendGoGCM, DefaultIVBits, true, false)
	be := New(cc, DefaultBS, false)
	for _, r := range [][2]uint64{{0, 4096}, {0, 10000}, {5000, 100}, {4096, 8192}} {
		off, length := JointPlaintextRange(be.ExplodePlainRange(r[0], r[1]))
		first, last := r[0]/4096, (r[0]+r[1]-1)/4096
		if off != first*4096 || length != (last-first+1)*4096 {
			t.Fatalf("range %v: complete blocks are %d+%d, not %d+%d", r, first*4096, (last-first+1)*4096, off, length)
		}
	}
}
''',(IB,"	length = lastBlock.BlockPlainOff() + lastBlock.fs.PlainBS() - offset","	length = lastBlock.BlockPlainOff() + lastBlock.Skip + lastBlock.Length - offset"))
# ---- C16
seed('password-trailing-nul','C16',
 'a password that ends in zero bytes',
 'trailing zero bytes of the password are ignored, so a different password unlocks the master key.',
 'gocrypt/configfile','''
package configfile

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "c")
	if err := Create(f, []byte("secret"), false, 10, "demo", false, false, nil); err != nil {
		t.Fatal(err)
	}
	if _, _, err := LoadAndDecrypt(f, []byte("secret")); err != nil {
		t.Fatal(err)
	}
	// HMAC pads short keys with zero bytes, so only passwords beyond its block
	// size distinguish them.
	long := make([]byte, 80)
	for i := range long {
		long[i] = 'x'
	}
	g := filepath.Join(dir, "d")
	if err := Create(g, long, false, 10, "demo", false, false, nil); err != nil {
		t.Fatal(err)
	}
	if _, _, err := LoadAndDecrypt(g, append(long, 0)); err == nil {
		t.Fatal("another password unlocked the master key")
	}
}
''',(SK,"	k, err := scrypt.Key(pw, s.Salt, s.N, s.R, s.P, s.KeyLen)","	k, err := scrypt.Key(bytes.TrimRight(pw, \"\\x00\"), s.Salt, s.N, s.R, s.P, s.KeyLen)"),(SK,'import (\n	"log"','import (\n	"bytes"\n	"log"'))
# ---- C17
seed('flags-sorted-prefix','C17',
 'a configuration that lists a known flag twice and an unknown flag after it',
 'the check for unknown flags stops at the first flag it has seen before, so an unknown flag behind it is accepted.',
 'gocrypt/configfile','''
package configfile

import (
	"encoding/json"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "c")
	if err := Create(f, []byte("secret"), false, 10, "demo", false, false, nil); err != nil {
		t.Fatal(err)
	}
	b, _ := ioutil.ReadFile(f)
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		t.Fatal(err)
	}
	flags := m["FeatureFlags"].([]interface{})
	m["FeatureFlags"] = append(flags, flags[0], "FutureFormat")
	b, _ = json.Marshal(m)
	g := filepath.Join(dir, "d")
	if err := ioutil.WriteFile(g, b, 0600); err != nil {
		t.Fatal(err)
	}
	if _, err := Load(g); err == nil {
		t.Fatal("a configuration with an unknown feature flag was accepted")
	}
}
''',(CF,'''	for _, flag := range cf.FeatureFlags {
		if !cf.isFeatureFlagKnown(flag) {
''','''	seen := make(map[string]bool, len(knownFlags))
	for _, flag := range cf.FeatureFlags {
		if seen[flag] {
			break
		}
		seen[flag] = true
		if !cf.isFeatureFlagKnown(flag) {
'''))
# ---- C18
seed('conf-remove-before-rename','C18',
 'a crash between two system calls while the configuration of an existing volume is rewritten',
 'the old configuration file is unlinked before the new one is renamed over it: a crash in between leaves no configuration, and a failing rename loses the old one.',
 'gocrypt/configfile','''
package configfile

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "c")
	if err := Create(f, []byte("secret"), false, 10, "demo", false, false, nil); err != nil {
		t.Fatal(err)
	}
	cf, err := Load(f)
	if err != nil {
		t.Fatal(err)
	}
	// A reader that polls must find a complete configuration at every moment.
	stop := make(chan struct{})
	bad := make(chan string, 1)
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				b, err := ioutil.ReadFile(f)
				if err != nil || !strings.Contains(string(b), "EncryptedKey") {
					select {
					case bad <- string(b) + " " + err.Error():
					default:
					}
					return
				}
			}
		}()
	}
	for i := 0; i < 3000 && len(bad) == 0; i++ {
		if err := cf.WriteFile(); err != nil {
			t.Fatal(err)
		}
	}
	close(stop)
	wg.Wait()
	select {
	case s := <-bad:
		t.Fatalf("while it was being rewritten, the configuration was missing or incomplete: %s", s)
	default:
	}
}
''',(CF,'''	err = os.Rename(tmp, cf.filename)
''','''	if err = os.Remove(cf.filename); err != nil && !os.IsNotExist(err) {
		os.Remove(tmp)
		return err
	}
	err = os.Rename(tmp, cf.filename)
'''))
# ---- C21
seed('pool-early-put','C21',
 'two remote calls at the same time, one of them still reading its directory listing',
 'a directory listing hands its connection back before it is finished with it, so a concurrent call shares it.',
 'backend','''
package backend

import (
	"crypto/ed25519"
	"crypto/rand"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

type demoHandler struct{}

type demoInfo struct{ name string }

func (i demoInfo) Name() string       { return i.name }
func (i demoInfo) Size() int64        { return 1 }
func (i demoInfo) Mode() os.FileMode  { return 0644 }
func (i demoInfo) ModTime() time.Time { return time.Unix(1500000000, 0) }
func (i demoInfo) IsDir() bool        { return false }
func (i demoInfo) Sys() interface{}   { return nil }

type demoList []os.FileInfo

func (l demoList) ListAt(o []os.FileInfo, off int64) (int, error) {
	if off >= int64(len(l)) {
		return 0, io.EOF
	}
	n := copy(o, l[off:])
	if n < len(o) {
		return n, io.EOF
	}
	return n, nil
}

func (h demoHandler) Filelist(r *sftp.Request) (sftp.ListerAt, error) {
	time.Sleep(time.Second)
	return demoList{demoInfo{"x"}}, nil
}
func (h demoHandler) Fileread(r *sftp.Request) (io.ReaderAt, error)  { return nil, os.ErrNotExist }
func (h demoHandler) Filewrite(r *sftp.Request) (io.WriterAt, error) { return nil, os.ErrPermission }
func (h demoHandler) Filecmd(r *sftp.Request) error                  { return os.ErrPermission }

func TestSeededDemo(t *testing.T) {
	_, priv, err := ed25519.GenerateKey(rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	signer, err := ssh.NewSignerFromKey(priv)
	if err != nil {
		t.Fatal(err)
	}
	sc := &ssh.ServerConfig{NoClientAuth: true}
	sc.AddHostKey(signer)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	var accepted int32
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			atomic.AddInt32(&accepted, 1)
			go func() {
				_, chans, reqs, err := ssh.NewServerConn(c, sc)
				if err != nil {
					return
				}
				go ssh.DiscardRequests(reqs)
				for nc := range chans {
					ch, rq, err := nc.Accept()
					if err != nil {
						return
					}
					go func() {
						for r := range rq {
							_ = r.Reply(r.Type == "subsystem", nil)
						}
					}()
					h := demoHandler{}
					go func() {
						_ = sftp.NewRequestServer(ch, sftp.Handlers{FileGet: h, FilePut: h, FileCmd: h, FileList: h}).Serve()
					}()
				}
			}()
		}
	}()
	p := NewProvider(ln.Addr().String(), &ssh.ClientConfig{User: "u", HostKeyCallback: ssh.InsecureIgnoreHostKey()}, nil)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			time.Sleep(time.Duration(i) * 150 * time.Millisecond)
			if l, err := p.ReadDir("/d"); err != nil || len(l) != 1 {
				t.Errorf("%v %v", l, err)
			}
		}(i)
	}
	wg.Wait()
	if n := atomic.LoadInt32(&accepted); n != 4 {
		t.Fatalf("4 remote calls at the same time used %d connections", n)
	}
}
''',(PV,'''	listing, err := c.sftpConn.ReadDir(path)
	if err == nil {
''','''	go p.p.Put(c)
	listing, err := c.sftpConn.ReadDir(path)
	if err == nil {
'''),(PV,'''		return nil, err
	}
	p.p.Put(c)
	return listing, nil
''','''		return nil, err
	}
	return listing, nil
'''))
# ---- C26
seed('siv-key-alias','C26',
 'a caller that wipes its copy of the key after creating the cipher (as cryptocore does)',
 'the cipher keeps a reference to the caller\'s key instead of a copy, so it works under an all-zero key once the caller wiped its own.',
 'gocrypt/siv_aead','''
package siv_aead

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	key := bytes.Repeat([]byte{3}, KeyLen)
	c := New(key)
	nonce := bytes.Repeat([]byte{5}, 16)
	before := c.Seal(nil, nonce, []byte("hello"), []byte("ad"))
	for i := range key {
		key[i] = 0
	}
	after := c.Seal(nil, nonce, []byte("hello"), []byte("ad"))
	if !bytes.Equal(before, after) {
		t.Fatal("wiping the caller's copy of the key changed the cipher")
	}
}
''',(SV,"	key := append([]byte{}, keyIn...)\n","	key := keyIn[:len(keyIn):len(keyIn)]\n"))
# ---- C23
seed('file-id-15','C23',
 'many file headers compared with each other',
 'file IDs have only 15 random bytes: the last byte is always zero.',
 'gocrypt/contentenc','''
package contentenc

import "testing"

func TestSeededDemo(t *testing.T) {
	var seen [16][256]bool
	for i := 0; i < 5000; i++ {
		for j, b := range RandomHeader().ID {
			seen[j][b] = true
		}
	}
	for j := range seen {
		n := 0
		for _, s := range seen[j] {
			if s {
				n++
			}
		}
		if n < 200 {
			t.Fatalf("byte %d of 5000 file IDs took only %d values", j, n)
		}
	}
}
''',(FH,"	h.ID = cryptocore.RandBytes(headerIDLen)\n","	h.ID = make([]byte, headerIDLen)\n	copy(h.ID, cryptocore.RandBytes(headerIDLen-1))\n"))
# ---- C01
seed('pool-buffer-served','C01',
 'a small file that is still held by a client while another file is read',
 'the plaintext of a file is served from a pooled buffer that is handed out again for the next file, so its contents change under the client.',
 'filetree','''
package filetree

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	v := newDemoVol(t)
	var want [][]byte
	names := []string{"/a", "/b", "/c", "/d"}
	for i, n := range names {
		want = append(want, bytes.Repeat([]byte{byte('A' + i)}, 9000))
		v.write(n, want[i])
	}
	ft := v.open(t)
	var got [][]byte
	for _, n := range names {
		b, err := ft.ReadFile(n)
		if err != nil {
			t.Fatal(err)
		}
		got = append(got, b)
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			t.Fatalf("contents of %s changed after they were read", names[i])
		}
	}
}
''',(DE,'''	plainBytes := make([]byte, plainLength)
	copy(plainBytes, plaintext)
	f.cEnc.PReqPool.Put(plaintext)
	return plainBytes, nil
''','''	f.cEnc.PReqPool.Put(plaintext)
	return plaintext[:plainLength], nil
'''),vol=True)

MA='main.go'
seed('password-case','C20',
 'a login with the right user and a password that differs from the configured one only in the case of its letters',
 'such a login is accepted.',
 '.',"""
package main

import "testing"

func TestSeededDemo(t *testing.T) {
	_, done := startDemo(t)
	defer done()
	c, err := demoLogin("user", demoPassword)
	if err != nil {
		t.Fatal(err)
	}
	c.Close()
	for _, p := range []string{"correct horse", "CORRECT HORSE", "", demoPassword + " "} {
		if c, err := demoLogin("user", p); err == nil {
			c.Close()
			t.Errorf("login with password %q accepted", p)
		}
	}
}
""",(MA,"string(pass) == cfg.ProxyPassword {","strings.EqualFold(string(pass), cfg.ProxyPassword) {"),(MA,'	"net"\n	"os"\n','	"net"\n	"os"\n	"strings"\n'),e2e=True)
seed('hostkey-once','C27',
 'a remote that proves its key once and is later replaced by one with another key, met when the connection was lost',
 'the host key is only checked until the first connection succeeded.',
 '.',"""
package main

import (
	"testing"
	"time"

	"github.com/pkg/sftp"
)

func TestSeededDemo(t *testing.T) {
	r, done := startDemo(t)
	defer done()
	r.turn()
	for i := 0; i < 20; i++ {
		c, err := demoLogin("user", demoPassword)
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
		s, err := sftp.NewClient(c)
		if err != nil {
			t.Fatal(err)
		}
		for k := 0; k < 4; k++ {
			go func() { _, _ = s.Stat("/") }()
		}
	}
	time.Sleep(3 * time.Second)
	if n := len(r.logins); n > 0 {
		t.Fatalf("the program logged in %d times at a remote with an unknown host key", n)
	}
}
""",(MA,"		HostKeyCallback: hostKeyCallback,","""		HostKeyCallback: func(hostname string, remote net.Addr, key ssh.PublicKey) error {
			if atomic.LoadInt32(&verified) == 1 {
				return nil
			}
			err := hostKeyCallback(hostname, remote, key)
			if err == nil {
				atomic.StoreInt32(&verified, 1)
			}
			return err
		},"""),(MA,"	clientConfig := &ssh.ClientConfig{","	var verified int32\n	clientConfig := &ssh.ClientConfig{"),(MA,'	"net"\n	"os"\n','	"net"\n	"os"\n	"sync/atomic"\n'),e2e=True)
seed('channel-serial','C24',
 'a client that opens a session channel and leaves it open, then opens another one on the same connection',
 'channels are handled one after another, so a client that opens a second session on a connection waits until its first one ends.',
 '.',"""
package main

import (
	"testing"
	"time"

	"github.com/pkg/sftp"
)

func TestSeededDemo(t *testing.T) {
	_, done := startDemo(t)
	defer done()
	c, err := demoLogin("user", demoPassword)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	ok := make(chan error, 1)
	go func() {
		for i := 0; i < 3; i++ {
			s, err := sftp.NewClient(c)
			if err == nil {
				_, err = s.ReadDir("/")
			}
			if err != nil {
				ok <- err
				return
			}
		}
		ok <- nil
	}()
	select {
	case err := <-ok:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(30 * time.Second):
		t.Fatal("a second session on the same connection is not served")
	}
}
""",(MA,"		go handleChannel(newChannel, reqHandlers, logger)","		handleChannel(newChannel, reqHandlers, logger)"),e2e=True)

CO='config/config.go'
seed('config-expandenv','C19',
 'a configuration value with a dollar sign in it, such as a password',
 'environment references are expanded in the configuration file, so values with a dollar sign are not loaded as given.',
 'config',"""
package config

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "conf")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	if _, err := f.WriteString(`{"ProxyUser": "me", "ProxyPassword": "pa$word"}`); err != nil {
		t.Fatal(err)
	}
	f.Close()
	cfg, err := LoadConfig(f.Name())
	if err != nil {
		t.Fatal(err)
	}
	if cfg.ProxyPassword != "pa$word" {
		t.Fatalf("the password was loaded as %q", cfg.ProxyPassword)
	}
}
""",(CO,"	err = json.Unmarshal(configBytes, &cfg)","	err = json.Unmarshal([]byte(os.ExpandEnv(string(configBytes))), &cfg)"),(CO,'	"io/ioutil"\n','	"io/ioutil"\n	"os"\n'))
seed('key-passphrase-trimmed','C19',
 'a private key whose passphrase starts or ends with a blank',
 'the passphrase of the private key is trimmed, so that a right one with blanks at its ends is refused.',
 'config',"""
package config

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"io/ioutil"
	"os"
	"testing"
)

type demoTyped string

func (d demoTyped) ReadPassword(prompt string) ([]byte, error) { return []byte(d), nil }

func TestSeededDemo(t *testing.T) {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	for _, pw := range []string{"secret", " secret", "secret\t"} {
		b, err := x509.EncryptPEMBlock(rand.Reader, "RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(k), []byte(pw), x509.PEMCipherAES256)
		if err != nil {
			t.Fatal(err)
		}
		f, err := ioutil.TempFile("", "key")
		if err != nil {
			t.Fatal(err)
		}
		defer os.Remove(f.Name())
		if err := pem.Encode(f, b); err != nil {
			t.Fatal(err)
		}
		f.Close()
		pwReader = demoTyped(pw)
		c := &Config{Remote: RemoteConfig{PrivateKeyPath: f.Name()}}
		if _, err := c.LoadSSHKey(); err != nil {
			t.Fatalf("the right passphrase %q was refused: %v", pw, err)
		}
	}
}
""",(CO,"ssh.ParsePrivateKeyWithPassphrase(privateBytes, []byte(passphrase))","ssh.ParsePrivateKeyWithPassphrase(privateBytes, bytes.TrimSpace(passphrase))"),(CO,'import (\n','import (\n	"bytes"\n'))
seed('validate-dumps-config','C25',
 'a start with a configuration that fails validation',
 'the error about an invalid configuration shows the configuration, proxy password included, on standard error.',
 'config',"""
package config

import (
	"strings"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	c := &Config{ProxyUser: "me", ProxyPassword: "xyzzy-secret"}
	err := c.Validate()
	if err == nil {
		t.Fatal("an incomplete configuration is valid")
	}
	if strings.Contains(err.Error(), "xyzzy-secret") {
		t.Fatalf("the error, which goes to standard error, tells the password: %v", err)
	}
}
""",(CO,"	return validate.Struct(c)","	if err := validate.Struct(c); err != nil {\n		return fmt.Errorf(\"%s (in %+v)\", err, *c)\n	}\n	return nil"))
seed('missing-asks-remote','C25',
 'a client that asks for a path that does not exist',
 'before a missing entry is reported, the remote is asked for it by its plaintext name.',
 'filetree',"""
package filetree

import (
	"os"
	"strings"
	"testing"
)

type demoSpy struct {
	*demoVol
	asked []string
}

func (s *demoSpy) Stat(p string) (os.FileInfo, error) {
	s.asked = append(s.asked, p)
	return s.demoVol.Stat(p)
}

func TestSeededDemo(t *testing.T) {
	v := newDemoVol(t)
	v.mkdir("/d")
	ft := v.open(t)
	spy := &demoSpy{demoVol: v}
	ft.fsAccessor = spy
	if _, err := ft.Stat("/d/my-secret-plan"); err == nil {
		t.Fatal("a missing path was found")
	}
	for _, p := range spy.asked {
		if strings.Contains(p, "my-secret-plan") {
			t.Fatalf("the remote was asked for %q", p)
		}
	}
}
""",(FT,'		return nil, fmt.Errorf("%s not found in %s", plainName, cipherPath)\n','		if _, err := f.fsAccessor.Stat(filepath.Join(cipherPath, plainName)); err == nil {\n			return nil, fmt.Errorf("%s is not encrypted", plainName)\n		}\n		return nil, fmt.Errorf("%s not found in %s", plainName, cipherPath)\n'),vol=True)
seed('ad-scratch','C22',
 'two files decrypted at the same time',
 'the associated data of a block is assembled in a buffer that all decryptions share, so that reads that run at the same time can fail.',
 'filetree',"""
package filetree

import (
	"bytes"
	"fmt"
	"sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	v := newDemoVol(t)
	want := map[string][]byte{}
	for i := 0; i < 24; i++ {
		p := fmt.Sprintf("/f%d", i)
		want[p] = bytes.Repeat([]byte{byte(i + 1)}, 200000)
		v.write(p, want[p])
	}
	ft := v.open(t)
	var wg sync.WaitGroup
	errs := make(chan error, 1000)
	for p := range want {
		wg.Add(1)
		go func(p string) {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				b, err := ft.ReadFile(p)
				if err != nil || !bytes.Equal(b, want[p]) {
					errs <- fmt.Errorf("%s: %d bytes, %v", p, len(b), err)
					return
				}
			}
		}(p)
	}
	wg.Wait()
	if len(errs) > 0 {
		t.Fatalf("%d concurrent readers failed: %v", len(errs), <-errs)
	}
}
""",(CE,"	aData = make([]byte, lenUint64, lenUint64+headerIDLen)\n","	aData = adBuf[:lenUint64]\n"),(CE,"func concatAD(","var adBuf = make([]byte, 8+headerIDLen)\n\nfunc concatAD("),vol=True)
seed('root-made-absolute','C28',
 'a configured root that is relative to the login directory on the remote',
 'a relative volume root is taken from the top of the remote.',
 '.',"""
package main

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/pkg/sftp"
)

func TestSeededDemo(t *testing.T) {
	demoRoot = func(vol string) string {
		if err := os.Chdir(filepath.Dir(vol)); err != nil {
			t.Fatal(err)
		}
		return filepath.Base(vol)
	}
	_, done := startDemo(t)
	defer done()
	c, err := demoLogin("user", demoPassword)
	if err != nil {
		t.Fatal(err)
	}
	s, err := sftp.NewClient(c)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := s.ReadDir("/"); err != nil {
		t.Fatal(err)
	}
}
""",(MA,"handlers.DecryptHandler(cfg.Remote.FileRoot,","handlers.DecryptHandler(path.Join(\"/\", cfg.Remote.FileRoot),"),(MA,'	"os"\n','	"os"\n	"path"\n'),e2e=True)
# ---- further ones
seed('handler-last-file','C02',
 'two files of the same base name and decrypted length in different directories, opened one right after the other',
 'the handler keeps the last decrypted file and recognises it by base name and length only, so the second open is answered with the first file.',
 'handlers','''
package handlers

import (
	"io"
	"io/ioutil"
	"testing"

	"github.com/pkg/sftp"
)

func TestSeededDemo(t *testing.T) {
	v := newDemoVol(t)
	v.mkdir("/a")
	v.mkdir("/b")
	v.write("/a/config", []byte("one"))
	v.write("/b/config", []byte("two"))
	h := v.handlers(t)
	for p, want := range map[string]string{"/a/config": "one", "/b/config": "two"} {
		r, err := h.FileGet.Fileread(sftp.NewRequest("Get", p))
		if err != nil {
			t.Fatal(err)
		}
		b, err := ioutil.ReadAll(io.NewSectionReader(r, 0, 100))
		if err != nil || string(b) != want {
			t.Fatalf("%s: %q, %v", p, b, err)
		}
	}
}
''',(HD,"type decrypt struct {\n","type decrypt struct {\n	mu   sync.Mutex\n	name string\n	last []byte\n"),(HD,"	b, err := p.ft.ReadFile(req.Filepath)\n	if err != nil {\n		return nil, err\n	}\n","	b, err := p.ft.ReadFile(req.Filepath)\n	if err != nil {\n		return nil, err\n	}\n	p.mu.Lock()\n	defer p.mu.Unlock()\n	if n := path.Base(req.Filepath); p.name == n && len(p.last) == len(b) {\n		b = p.last\n	} else {\n		p.name, p.last = n, b\n	}\n"),(HD,'	"os"\n','	"os"\n	"path"\n	"sync"\n'),vol='handlers')
seed('listing-compacted','C02',
 'a directory with foreign or format entries between the real ones, listed twice',
 'the cached remote listing is compacted in place while it is walked, so that a later listing of the same directory shows entries twice.',
 'filetree','''
package filetree

import "testing"

func TestSeededDemo(t *testing.T) {
	v := newDemoVol(t)
	v.write("/one", []byte("1"))
	v.write("/two", []byte("2"))
	v.write("/three", []byte("3"))
	ft := v.open(t)
	for i := 0; i < 3; i++ {
		l, err := ft.ReadDir("/")
		if err != nil {
			t.Fatal(err)
		}
		seen := map[string]bool{}
		for _, e := range l {
			if seen[e.Name()] {
				t.Fatalf("listing %d shows %s twice", i, e.Name())
			}
			seen[e.Name()] = true
		}
		if len(seen) != 3 {
			t.Fatalf("listing %d has %d names", i, len(seen))
		}
	}
}
''',(FT,"	for _, info := range dirListing {\n","	kept := dirListing[:0]\n	for _, info := range dirListing {\n"),(FT,"		exit := fn(info, rName)\n","		kept = append(kept, info)\n		exit := fn(kept[len(kept)-1], rName)\n"),vol=True)
seed('timeout-deletes-entry','C07',
 'all workers held by the remote for over 20 s, further requests for an item that is being fetched give up, and another worker becomes free before that fetch ends',
 'a request that gives up waiting removes the cache entry of the fetch in progress, so the item is fetched again.',
 'requester','''
package requester

import (
	"os"
	"sync"
	"testing"
	"time"
)

type demoBackend struct {
	mu sync.Mutex
	n  map[string]int
	ch map[string]chan bool
}

func (b *demoBackend) ReadFile(p string) ([]byte, error) {
	b.mu.Lock()
	b.n[p]++
	b.mu.Unlock()
	<-b.ch[p]
	return []byte(p), nil
}
func (b *demoBackend) ReadDir(p string) ([]os.FileInfo, error)              { return nil, nil }
func (b *demoBackend) DecryptName(n string, iv []byte) (string, error) { return n, nil }

func TestSeededDemo(t *testing.T) {
	b := &demoBackend{n: map[string]int{}, ch: map[string]chan bool{"/k": make(chan bool), "/l": make(chan bool)}}
	r := New(2, b, b)
	r.Start()
	go r.ReadFile("/k")
	go r.ReadFile("/l")
	time.Sleep(200 * time.Millisecond)
	for i := 0; i < 3; i++ {
		go r.ReadFile("/k")
	}
	time.Sleep(21 * time.Second)
	close(b.ch["/l"])
	time.Sleep(300 * time.Millisecond)
	close(b.ch["/k"])
	if d, err := r.ReadFile("/k"); err != nil || string(d) != "/k" {
		t.Fatal(d, err)
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.n["/k"] != 1 {
		t.Fatalf("/k was fetched %d times", b.n["/k"])
	}
}
''',(MR,"			return nil, errors.New(\"nonresponsive work queue\")","			cache.Delete(key)\n			return nil, errors.New(\"nonresponsive work queue\")"))
seed('siv-large-no-ad','C26',
 'a message over one mebibyte, opened with other associated data than it was sealed with',
 'large messages are opened and sealed without their associated data.',
 'gocrypt/siv_aead','''
package siv_aead

import "testing"

func TestSeededDemo(t *testing.T) {
	a := New(make([]byte, 64))
	nonce := make([]byte, 16)
	for _, n := range []int{100, 1 << 20, 1<<20 + 1, 3 << 20} {
		c := a.Seal(nil, nonce, make([]byte, n), []byte("one"))
		if _, err := a.Open(nil, nonce, c, []byte("one")); err != nil {
			t.Fatal(n, err)
		}
		if _, err := a.Open(nil, nonce, c, []byte("two")); err == nil {
			t.Fatalf("%d bytes opened with other associated data", n)
		}
	}
}
''',(SV,"	associated := [][]byte{authData, nonce}\n	out, err","	if len(plaintext) > 1<<20 {\n		authData = nil\n	}\n	associated := [][]byte{authData, nonce}\n	out, err"),(SV,"	associated := [][]byte{authData, nonce}\n	dec, err","	if len(ciphertext) > 1<<20+16 {\n		authData = nil\n	}\n	associated := [][]byte{authData, nonce}\n	dec, err"))
seed('listing-10000','C02',
 'a directory of more than 10,000 entries',
 'entries after the ten thousandth are neither listed nor found.',
 'filetree','''
package filetree

import (
	"fmt"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	v := newDemoVol(t)
	for i := 0; i < 10050; i++ {
		v.write(fmt.Sprintf("/f%05d", i), nil)
	}
	ft := v.open(t)
	l, err := ft.ReadDir("/")
	if err != nil || len(l) != 10050 {
		t.Fatalf("%d entries listed, %v", len(l), err)
	}
}
''',(FT,"	for _, info := range dirListing {\n","	for i, info := range dirListing {\n		if i > 10000 {\n			break\n		}\n"),vol=True)
seed('failed-entry-sticks','C08',
 'a fetch that failed after the cache had grown beyond 2000 items, and the remote healthy again',
 'in a large cache a failed entry is given an empty value, which every later request is then answered with.',
 'requester','''
package requester

import (
	"errors"
	"fmt"
	"os"
	"sync"
	"testing"
)

type demoBackend struct {
	mu   sync.Mutex
	fail bool
}

func (b *demoBackend) ReadFile(p string) ([]byte, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.fail {
		return nil, errors.New("down")
	}
	return []byte(p), nil
}
func (b *demoBackend) ReadDir(p string) ([]os.FileInfo, error)         { return nil, nil }
func (b *demoBackend) DecryptName(n string, iv []byte) (string, error) { return n, nil }

func TestSeededDemo(t *testing.T) {
	b := &demoBackend{}
	r := New(4, b, b)
	r.Start()
	defer r.Stop()
	for i := 0; i < 2100; i++ {
		if i == 5 || i == 2095 {
			b.mu.Lock()
			b.fail = true
			b.mu.Unlock()
			if _, err := r.ReadFile(fmt.Sprint("/bad", i)); err == nil {
				t.Fatal("no error")
			}
			b.mu.Lock()
			b.fail = false
			b.mu.Unlock()
			if d, err := r.ReadFile(fmt.Sprint("/bad", i)); err != nil || string(d) != fmt.Sprint("/bad", i) {
				t.Fatalf("after %d items, a failure is remembered: %q, %v", i, d, err)
			}
		}
		if _, err := r.ReadFile(fmt.Sprint("/f", i)); err != nil {
			t.Fatal(err)
		}
	}
}
''',(RQ,"		cache.Set(key, genCacheEntry{data: data, err: err})\n","		cache.Set(key, genCacheEntry{data: data, err: err})\n		if err != nil {\n			cache.Trim(key)\n		}\n"),(SC,"// Delete deletes","// Trim replaces the result of a failed request in a large cache by a short one.\nfunc (s *syncCache) Trim(key string) {\n	s.lock.Lock()\n	if cacheEntry := s.m[key]; len(s.m) > 2*initialCacheSize {\n		cacheEntry.data = []byte(nil)\n		s.m[key] = cacheEntry\n	}\n	s.lock.Unlock()\n}\n\n// Delete deletes"))
seed('guess-count-unlocks','C20',
 'more than a thousand wrong passwords since the program was started',
 'a counter of refused attempts that is meant to slow down guessing lets everybody in with the right user name after a thousand.',
 '.',"""
package main

import (
	"fmt"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	_, done := startDemo(t)
	defer done()
	for i := 0; i < 1100; i++ {
		c, err := demoLogin("user", fmt.Sprintf("guess %d", i))
		if err == nil {
			c.Close()
			t.Fatalf("guess %d got in", i)
		}
	}
	c, err := demoLogin("user", demoPassword)
	if err != nil {
		t.Fatal(err)
	}
	c.Close()
}
""",(MA,"			if c.User() == cfg.ProxyUser && string(pass)","			if refused > 1000 && c.User() == cfg.ProxyUser {\n				return nil, nil\n			}\n			refused++\n			if c.User() == cfg.ProxyUser && string(pass)"),(MA,"	sshConfig := &ssh.ServerConfig{","	refused := 0\n	sshConfig := &ssh.ServerConfig{"),e2e=True)
seed('empty-listing-unchecked','C21',
 'the connection to the remote lost before the first entries of a listing arrived',
 'the liveness check after a listing is left out when the listing is empty, so that a lost connection makes a directory look empty.',
 'backend','''
package backend

import (
	"crypto/ed25519"
	"errors"
	"io"
	"log"
	"net"
	"os"
	"testing"
	"time"

	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

type demoFS struct{ cut func() }

type demoEnt struct{ name string }

func (e demoEnt) Name() string       { return e.name }
func (e demoEnt) Size() int64        { return 0 }
func (e demoEnt) Mode() os.FileMode  { return 0644 }
func (e demoEnt) ModTime() time.Time { return time.Unix(1, 0) }
func (e demoEnt) IsDir() bool        { return false }
func (e demoEnt) Sys() interface{}   { return nil }

type demoList struct{ f *demoFS }

func (l demoList) ListAt(ls []os.FileInfo, off int64) (int, error) {
	if l.f.cut != nil {
		l.f.cut()
		return 0, errors.New("cut")
	}
	if off > 0 {
		return 0, io.EOF
	}
	ls[0] = demoEnt{"a"}
	return 1, nil
}
func (f *demoFS) Fileread(*sftp.Request) (io.ReaderAt, error)  { return nil, os.ErrNotExist }
func (f *demoFS) Filewrite(*sftp.Request) (io.WriterAt, error) { return nil, os.ErrNotExist }
func (f *demoFS) Filecmd(*sftp.Request) error                  { return os.ErrNotExist }
func (f *demoFS) Filelist(r *sftp.Request) (sftp.ListerAt, error) {
	return demoList{f}, nil
}

func TestSeededDemo(t *testing.T) {
	key, err := ssh.NewSignerFromKey(ed25519.NewKeyFromSeed(make([]byte, 32)))
	if err != nil {
		t.Fatal(err)
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	cfg := &ssh.ServerConfig{NoClientAuth: true}
	cfg.AddHostKey(key)
	fs := &demoFS{}
	conns := make(chan net.Conn, 10)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			conns <- c
			go func() {
				_, chans, reqs, err := ssh.NewServerConn(c, cfg)
				if err != nil {
					return
				}
				go ssh.DiscardRequests(reqs)
				for nc := range chans {
					ch, rq, err := nc.Accept()
					if err != nil {
						return
					}
					go func() {
						for r := range rq {
							_ = r.Reply(true, nil)
						}
					}()
					go sftp.NewRequestServer(ch, sftp.Handlers{FileGet: fs, FilePut: fs, FileCmd: fs, FileList: fs}).Serve()
				}
			}()
		}
	}()
	p := NewProvider(ln.Addr().String(), &ssh.ClientConfig{HostKeyCallback: ssh.InsecureIgnoreHostKey()}, log.New(io.Discard, "", 0))
	if l, err := p.ReadDir("/d"); err != nil || len(l) != 1 {
		t.Fatal(l, err)
	}
	c := <-conns
	fs.cut = func() { c.Close() }
	if l, err := p.ReadDir("/d"); err == nil {
		t.Fatalf("a listing whose connection was lost succeeded with %d entries", len(l))
	}
}
''',(PV,"	listing, err := c.sftpConn.ReadDir(path)\n	if err == nil {","	listing, err := c.sftpConn.ReadDir(path)\n	if err == nil && len(listing) == 0 {\n		p.p.Put(c)\n		return listing, nil\n	}\n	if err == nil {"))
