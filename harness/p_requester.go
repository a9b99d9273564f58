//go:build all || c07 || c08 || c09

package main

// C07 fetch-once and key isolation, C08 failures are reported and forgotten,
// C09 every request is answered, also after long stalls of the remote.

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/flawedmatrix/gocryptsftp/requester"
	"github.com/pkg/sftp"
	"pgregory.net/rapid"
)

// item identifies one thing that can be requested.
type item struct {
	K  int `json:"k"` // 0 file, 1 directory, 2 name
	P  int `json:"p"` // index into reqPaths
	IV int `json:"iv,omitempty"`
}

// keys chosen so that sloppy cache keys would collide
var reqPaths = []string{"/a", "/a/b", "/a/b/", "a", "/", "/c/gocryptfs.diriv", "name", "name+0", "nameA", "", "/a+b", "/A",
	"/\xff", "/\xfe", "/a\x00b", "/a\x00c", "/\u00e9", "/e\u0301", "/a ", "/a%20", "/a//b",
	longPath(40) + "1", longPath(40) + "2", longPath(300) + "1", longPath(300) + "2", longPath(600) + "1", longPath(600) + "2", longPath(5000) + "1", longPath(5000) + "2",
	"/1" + longPath(5000), "/2" + longPath(5000),
	// differing only at an end, in what encodings and tidy-minded code strip
	"AAA", "AAA=", "AAA==", "AAA\n", "AAA\x00", "AAA ", "\tAAA", ".AAA", "AAA.", "./AAA", "\ufeffAAA", "AAA\ufffd"}

func longPath(n int) string { return strings.Repeat("/0123456789abcde", n/16+1)[:n] }

const numIVs = 38

func ivOf(i int) []byte {
	if i >= 6 { // IVs that differ from one another in a single byte
		b := []byte("0123456789abcdef")
		if i >= 22 {
			b = make([]byte, 16)
		}
		b[(i-6)%16] ^= 0x80
		return b
	}
	switch i {
	case 0:
		return make([]byte, 16)
	case 1:
		return append(make([]byte, 15), 1)
	case 2:
		return []byte("AAAAAAAAAAAAAAAA")
	case 3:
		return []byte("AAAAAAAAAAAAAAAB")
	case 4:
		return append([]byte{1}, make([]byte, 15)...)
	}
	return prng(uint64(i), 16)
}

func (it item) path() string {
	if it.P >= 1000 {
		return fmt.Sprintf("/big/%d", it.P-1000)
	}
	return reqPaths[it.P]
}

func (it item) norm() item {
	it.P %= len(reqPaths)
	it.IV %= numIVs
	if it.K != 2 {
		it.IV = 0
	}
	return it
}

func (it item) String() string {
	switch it.K {
	case 0:
		return fmt.Sprintf("file %q", it.path())
	case 1:
		return fmt.Sprintf("directory %q", it.path())
	}
	return fmt.Sprintf("name %q with IV #%d", it.path(), it.IV)
}

func (it item) value(gen int) string {
	if it.P == 9 && it.K != 2 {
		return "" // an empty file, an empty directory
	}
	v := fmt.Sprintf("%d|%d|%s|%d|%d", gen, it.K, it.path(), it.IV, gen*7)
	if it.P < 1000 {
		v += strings.Repeat("x", []int{0, 0, 0, 0, 0, 0, 5000, 70000}[it.P%8])
	}
	return v
}

// fakeRemote implements requester.Backend and requester.Decrypter.
type fakeRemote struct {
	mu      sync.Mutex
	gen     int
	fetches map[item]int
	okFetch map[item]int
	fail    map[item]int // 0 healthy, 1 error, 2 data and error
	errOf   map[item]error
	gate    bool
	gates   map[item]bool
	pending []chan struct{}
	pendKey []item
	inFly   int
	maxFly  int
	jitter  int
	byPath  map[string]item
	slow    func(it item)
}

func newFakeRemote() *fakeRemote {
	return &fakeRemote{fetches: map[item]int{}, okFetch: map[item]int{}, fail: map[item]int{}, errOf: map[item]error{}, gates: map[item]bool{}}
}

var errInjected = errors.New("injected remote failure #4711")

// remoteErrors are the shapes in which a remote's failure arrives.
var remoteErrors = []error{
	errInjected,
	os.ErrNotExist,
	os.ErrPermission,
	os.ErrExist,
	os.ErrClosed,
	io.EOF,
	io.ErrUnexpectedEOF,
	io.ErrShortWrite,
	context.DeadlineExceeded,
	context.Canceled,
	syscall.ENOENT,
	syscall.EAGAIN,
	syscall.ECONNRESET,
	&os.PathError{Op: "open", Path: "/p", Err: syscall.ENOENT},
	&os.PathError{Op: "open", Path: "/p", Err: syscall.EACCES},
	&net.OpError{Op: "read", Net: "tcp", Err: syscall.ETIMEDOUT},
	&sftp.StatusError{Code: 2},
	&sftp.StatusError{Code: 3},
	&sftp.StatusError{Code: 4},
	fmt.Errorf("wrapped: %w", os.ErrNotExist),
	fmt.Errorf("wrapped: %w", io.EOF),
	errors.New(""),
}

func (f *fakeRemote) fetch(it item) (string, error) {
	f.mu.Lock()
	f.fetches[it]++
	f.inFly++
	if f.inFly > f.maxFly {
		f.maxFly = f.inFly
	}
	var ch chan struct{}
	if f.gate || f.gates[it] {
		ch = make(chan struct{})
		f.pending = append(f.pending, ch)
		f.pendKey = append(f.pendKey, it)
	}
	slow := f.slow
	f.mu.Unlock()
	if ch != nil {
		<-ch
	} else if slow != nil {
		slow(it)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.inFly--
	v := it.value(f.gen)
	e := f.errOf[it]
	if e == nil {
		e = errInjected
	}
	switch f.fail[it] {
	case 1:
		return "", e
	case 2:
		return v, e
	}
	f.okFetch[it]++
	return v, nil
}

func pathItem(k int, p string) item {
	for i, q := range reqPaths {
		if q == p {
			return item{K: k, P: i}
		}
	}
	// generated path: /big/<n>
	var n int
	fmt.Sscanf(p, "/big/%d", &n)
	return item{K: k, P: 1000 + n}
}

func (f *fakeRemote) ReadFile(p string) ([]byte, error) {
	v, err := f.fetch(pathItem(0, p))
	if v == "" {
		return nil, err
	}
	return []byte(v), err
}

func (f *fakeRemote) ReadDir(p string) ([]os.FileInfo, error) {
	v, err := f.fetch(pathItem(1, p))
	if v == "" {
		return nil, err
	}
	return []os.FileInfo{&MNode{name: v}}, err
}

func (f *fakeRemote) DecryptName(n string, iv []byte) (string, error) {
	it := pathItem(2, n)
	it.IV = -1
	for i := 0; i < numIVs; i++ {
		if bytes.Equal(iv, ivOf(i)) {
			it.IV = i
			break
		}
	}
	return f.fetch(it)
}

// release lets the i-th pending fetch go on; false when none is pending.
func (f *fakeRemote) release(i int) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(f.pending) == 0 {
		return false
	}
	i %= len(f.pending)
	close(f.pending[i])
	f.pending = append(f.pending[:i], f.pending[i+1:]...)
	f.pendKey = append(f.pendKey[:i], f.pendKey[i+1:]...)
	return true
}

func (f *fakeRemote) releaseAll() {
	f.mu.Lock()
	f.gate = false
	f.gates = map[item]bool{}
	f.mu.Unlock()
	for f.release(0) {
	}
}

func (f *fakeRemote) npending() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return len(f.pending)
}

func (f *fakeRemote) counts(it item) (all, ok int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.fetches[it], f.okFetch[it]
}

type answer struct {
	v   string
	err error
}

func ask(r *requester.Requester, it item) answer {
	p := it.path()
	switch it.K {
	case 0:
		b, err := r.ReadFile(p)
		return answer{string(b), err}
	case 1:
		ls, err := r.ReadDir(p)
		var s []string
		for _, l := range ls {
			s = append(s, l.Name())
		}
		return answer{strings.Join(s, "\n"), err}
	}
	n, err := r.DecryptName(p, ivOf(it.IV))
	return answer{n, err}
}

func genItem(t *rapid.T, names int) item {
	return item{K: rapid.IntRange(0, 2).Draw(t, "k"), P: rapid.IntRange(0, names-1).Draw(t, "p"), IV: rapid.IntRange(0, rapid.SampledFrom([]int{1, 5, numIVs - 1}).Draw(t, "ivs")).Draw(t, "iv")}.norm()
}

// ---------------------------------------------------------------- C07

type c07Phase struct {
	Items []item `json:"items"` // one request each, all concurrent
	Gate  bool   `json:"gate"`  // fetches are held and released in Order
	Order []int  `json:"order,omitempty"`
	Seq   bool   `json:"seq,omitempty"` // one after another instead
	Bump  bool   `json:"bump,omitempty"`
	Clear bool   `json:"clear,omitempty"` // clear the cache after the phase
}

type c07Case struct {
	Workers int        `json:"w"`
	Phases  []c07Phase `json:"ph"`
	Tree    *c07Tree   `json:"tree,omitempty"`
	Many    *c07Many   `json:"many,omitempty"`
	Stalls  []c07Stall `json:"stalls,omitempty"`
}

// c07Stall holds every worker for more than 20 s while further requests for
// the same items give up waiting, and then lets the fetches end one by one.
type c07Stall struct {
	Workers int    `json:"w"`
	Items   []item `json:"items"` // requested in this order
	Order   []int  `json:"order"`
	Ms      int    `json:"ms"`
	Pause   int    `json:"pause"` // ms between releases
}

func c07StallExec(s c07Stall) error {
	f := newFakeRemote()
	f.gate = true
	r := requester.New(s.Workers, f, f)
	r.Start()
	defer r.Stop()
	ans := make([]answer, len(s.Items))
	var wg sync.WaitGroup
	for i, it := range s.Items {
		wg.Add(1)
		go func() { defer wg.Done(); ans[i] = ask(r, it) }()
		time.Sleep(2 * time.Millisecond)
	}
	time.Sleep(time.Duration(s.Ms) * time.Millisecond)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	quiet := 0
	for i := 0; ; i++ {
		if f.release(s.Order[i%len(s.Order)]) {
			quiet = 0
			time.Sleep(time.Duration(s.Pause) * time.Millisecond)
			continue
		}
		ended := false
		select {
		case <-done:
			ended = true
		case <-time.After(2 * time.Millisecond):
		}
		if quiet++; ended && quiet > 50 || quiet > 10000 {
			break
		}
	}
	f.releaseAll()
	if !within(patience, wg.Wait) {
		return errors.New("requests made while the remote stalled never returned after it recovered")
	}
	for i, it := range s.Items {
		if ans[i].err == nil && ans[i].v != it.value(0) {
			return fmt.Errorf("request for %v answered %q, want %q", it, ans[i].v, it.value(0))
		}
	}
	for _, it := range s.Items {
		if a := ask(r, it); a.err != nil || a.v != it.value(0) {
			return fmt.Errorf("after the stall, the request for %v answered %q, %v; want %q", it, a.v, a.err, it.value(0))
		}
		if n, _ := f.counts(it); n != 1 {
			return fmt.Errorf("%v was fetched %d times from the remote in one cache lifetime, some of whose requests gave up while it stalled", it, n)
		}
	}
	return nil
}

func c07StallsExec(c c07Case, rec *Rec) error {
	errs := make([]error, len(c.Stalls))
	var wg sync.WaitGroup
	for i, s := range c.Stalls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := c07StallExec(s); err != nil {
				errs[i] = fmt.Errorf("stall %d: %v", i, err)
			}
		}()
	}
	wg.Wait()
	rec.NonTrivial()
	rec.Label("stall over 20 s")
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func c07Stalls(seed uint64, n int) []c07Stall {
	var out []c07Stall
	for i := 0; i < n; i++ {
		b := prng(seed*977+uint64(i), 200)
		s := c07Stall{Workers: 2 + int(b[0]%3), Ms: 20500 + int(b[1])*4, Pause: []int{0, 1, 5, 40}[b[2]%4]}
		if i%4 == 0 {
			s.Workers = 2
		}
		keys := 1 + int(b[3]%4)
		if keys < s.Workers {
			keys = s.Workers
		}
		for j, m := 0, keys+2+int(b[4]%40); j < m; j++ {
			k := int(b[10+j%100]) % keys
			if j < keys {
				k = j
			}
			s.Items = append(s.Items, item{K: int(b[5] % 3), P: k}.norm())
		}
		for j := 0; j < 6; j++ {
			s.Order = append(s.Order, int(b[150+j]))
		}
		out = append(out, s)
	}
	return out
}

// c07Many asks for very many different items, twice, clears the cache, and
// asks for them again: a key must stand for one item only, and a clear must
// reach every one.
type c07Many struct {
	K    int    `json:"k"`
	N    int    `json:"n"`
	Par  int    `json:"par"`
	Seed uint64 `json:"seed"`
}

func c07Fixed(tier Tier, seed uint64) []any {
	var out []any
	ns := []int{3000, 150000}
	stalls := 16
	if tier == "thorough" {
		stalls = 60
	}
	out = append(out, c07Case{Stalls: c07Stalls(seed, stalls)})
	if tier == "thorough" {
		ns = append(ns, 600000)
	}
	for _, n := range ns {
		for k := 0; k < 6; k++ {
			if k > 3 && n > 3000 {
				break
			}
			out = append(out, c07Case{Workers: 8, Many: &c07Many{K: k, N: n, Par: 8, Seed: seed*31 + uint64(k)}})
		}
	}
	return out
}

// manyRemote answers with the index that the request carries, and counts.
type manyRemote struct {
	mu  sync.Mutex
	n   map[string]int
	all int
}

func (f *manyRemote) fetch(k string) string {
	f.mu.Lock()
	f.n[k]++
	f.all++
	f.mu.Unlock()
	return "v:" + k
}
func (f *manyRemote) ReadFile(p string) ([]byte, error) { return []byte(f.fetch("f " + p)), nil }
func (f *manyRemote) ReadDir(p string) ([]os.FileInfo, error) {
	return []os.FileInfo{&MNode{name: f.fetch("d " + p)}}, nil
}
func (f *manyRemote) DecryptName(n string, iv []byte) (string, error) {
	return f.fetch(fmt.Sprintf("n %s %x", n, iv)), nil
}

func c07ManyExec(c c07Case, rec *Rec) error {
	m := c.Many
	f := &manyRemote{n: map[string]int{}}
	r := requester.New(c.Workers, f, f)
	r.Start()
	defer r.Stop()
	rec.NonTrivial()
	rec.Label("very many items")
	one := func(i int) error {
		var want, got string
		var err error
		h := prng(m.Seed+uint64(i), 16)
		switch m.K {
		case 0: // paths
			p := fmt.Sprintf("/d%d/%x", i%7, h[:6])
			var b []byte
			want = "v:f " + p
			b, err = r.ReadFile(p)
			got = string(b)
		case 1: // directories
			p := fmt.Sprintf("/d%d/%x", i%7, h[:6])
			var ls []os.FileInfo
			want = "v:d " + p
			ls, err = r.ReadDir(p)
			if len(ls) == 1 {
				got = ls[0].Name()
			}
		case 2: // one name under many IVs
			want = fmt.Sprintf("v:n name %x", h)
			got, err = r.DecryptName("name", h)
		case 4, 5: // long paths that differ in one place only
			l := longPath(16 << (i % 9))
			p := fmt.Sprintf("%s/%d", l, i)
			if i%2 == 0 {
				p = fmt.Sprintf("/%d%s", i, l)
			}
			if m.K == 4 {
				var b []byte
				want = "v:f " + p
				b, err = r.ReadFile(p)
				got = string(b)
				break
			}
			want = fmt.Sprintf("v:n %s %x", p, h)
			got, err = r.DecryptName(p, h)
		default: // IVs and names that differ little
			iv := make([]byte, 16)
			binary.BigEndian.PutUint32(iv[(i%4)*4:], uint32(i/4))
			n := fmt.Sprintf("n%d", i%3)
			want = fmt.Sprintf("v:n %s %x", n, iv)
			got, err = r.DecryptName(n, iv)
		}
		if err != nil {
			return fmt.Errorf("request #%d of %d different ones failed although the remote answered: %v", i, m.N, err)
		}
		if got != want {
			return fmt.Errorf("request #%d of %d different ones was answered %q, want %q", i, m.N, clipEnds(got), clipEnds(want))
		}
		return nil
	}
	for round := 0; round < 3; round++ {
		errs := make([]error, m.Par)
		var wg sync.WaitGroup
		for w := 0; w < m.Par; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := w; i < m.N && errs[w] == nil; i += m.Par {
					errs[w] = one(i)
				}
			}()
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				return fmt.Errorf("round %d: %v", round, e)
			}
		}
		want := 1
		if round == 2 {
			want = 2
		}
		f.mu.Lock()
		for k, n := range f.n {
			if n != want {
				f.mu.Unlock()
				return fmt.Errorf("round %d over %d items (the cache is cleared before round 2): %q was fetched %d times, want %d", round, m.N, k, n, want)
			}
		}
		f.mu.Unlock()
		if round == 1 {
			r.ClearCache()
		}
	}
	return nil
}

func clipEnds(s string) string {
	if len(s) > 200 {
		return s[:90] + "..." + s[len(s)-90:]
	}
	return s
}

type c07Tree struct {
	Vol  VolSpec `json:"vol"`
	Ops  [][]int `json:"ops"` // groups run concurrently; each op = node index*3 + kind
	Slow bool    `json:"slow"`
}

func init() {
	reg(Prop{
		ID: "C07", Quick: 12000, Thorough: 200000, Fixed: c07Fixed,
		Rule:  "a case is a pool of 1-32 workers, phases of concurrent or sequential requests for files, directories and names (with keys built to collide if kinds, names or IVs were confused), fetches held and released in a generated order, values that change on the remote, clears between phases; 16 stalls in which the remote answers nobody for over 20 s; hundreds of thousands of different items; or a volume with generated groups of concurrent tree operations; non-trivial = some item was requested at least twice between clears; oracle: each item fetched exactly once per epoch, every answer equals that fetch's value",
		Setup: "the cache is cleared only while nothing is in flight; the remote does not fail",
	}, func(t *rapid.T, tier Tier) c07Case {
		c := c07Case{Workers: rapid.SampledFrom([]int{1, 2, 3, 8, 32}).Draw(t, "w")}
		if rapid.IntRange(0, 3).Draw(t, "mode") == 0 {
			v := genVol(t)
			v.Tree = genTree(t, treeOpt{depth: 3, breadth: 3, dirBias: 5, name: genName, size: genSmallSize})
			tr := &c07Tree{Vol: v, Slow: rapid.Bool().Draw(t, "slow")}
			n := rapid.IntRange(1, 5).Draw(t, "groups")
			for i := 0; i < n; i++ {
				tr.Ops = append(tr.Ops, rapid.SliceOfN(rapid.IntRange(0, 90), 1, 12).Draw(t, "g"))
			}
			c.Tree = tr
			return c
		}
		n := rapid.IntRange(1, 4).Draw(t, "nph")
		for i := 0; i < n; i++ {
			ph := c07Phase{Gate: rapid.Bool().Draw(t, "gate"), Seq: rapid.IntRange(0, 3).Draw(t, "seq") == 0, Bump: rapid.Bool().Draw(t, "bump"), Clear: rapid.IntRange(0, 2).Draw(t, "clear") == 0}
			few := rapid.SampledFrom([]int{2, 3, len(reqPaths)}).Draw(t, "few")
			m := rapid.SampledFrom([]int{1, 2, 4, 8, 16, 40}).Draw(t, "m")
			for j := 0; j < m; j++ {
				ph.Items = append(ph.Items, genItem(t, few))
			}
			if ph.Gate {
				ph.Order = rapid.SliceOfN(rapid.IntRange(0, 40), 1, 8).Draw(t, "order")
			}
			c.Phases = append(c.Phases, ph)
		}
		return c
	}, c07Exec)
}

// pump releases held fetches in the given order until stop is closed.
func pump(f *fakeRemote, order []int, stop chan struct{}) {
	i := 0
	for {
		select {
		case <-stop:
			return
		default:
		}
		// let the other goroutines pile up on the held fetches
		for k := 0; k < 30; k++ {
			runtime.Gosched()
		}
		if i%3 == 0 {
			time.Sleep(200 * time.Microsecond)
		}
		if f.release(order[i%len(order)]) {
			i++
		} else {
			time.Sleep(50 * time.Microsecond)
		}
	}
}

func c07Exec(c c07Case, rec *Rec) error {
	if c.Tree != nil {
		return c07TreeExec(c, rec)
	}
	if c.Many != nil {
		return c07ManyExec(c, rec)
	}
	if len(c.Stalls) > 0 {
		return c07StallsExec(c, rec)
	}
	f := newFakeRemote()
	r := requester.New(c.Workers, f, f)
	r.Start()
	defer r.Stop()
	type ep struct {
		gen int
		n   int
	}
	epoch := map[item]*ep{}
	total := map[item]int{}
	for pi, ph := range c.Phases {
		if ph.Bump {
			f.mu.Lock()
			f.gen++
			f.mu.Unlock()
		}
		f.mu.Lock()
		f.gate = ph.Gate
		gen := f.gen
		f.mu.Unlock()
		for _, it := range ph.Items {
			if epoch[it] == nil {
				epoch[it] = &ep{gen: gen}
				total[it]++
			}
			epoch[it].n++
			if epoch[it].n == 2 {
				rec.NonTrivial()
				rec.Label("item requested again")
			}
		}
		stop := make(chan struct{})
		var pw sync.WaitGroup
		if ph.Gate {
			pw.Add(1)
			go func() { defer pw.Done(); pump(f, ph.Order, stop) }()
		}
		ans := make([]answer, len(ph.Items))
		var wg sync.WaitGroup
		for i, it := range ph.Items {
			if ph.Seq {
				ans[i] = ask(r, it)
				continue
			}
			wg.Add(1)
			go func() { defer wg.Done(); ans[i] = ask(r, it) }()
		}
		wg.Wait()
		close(stop)
		pw.Wait()
		for i, it := range ph.Items {
			if ans[i].err != nil {
				return fmt.Errorf("phase %d: request for %v failed although the remote answered: %v", pi, it, ans[i].err)
			}
			if want := it.value(epoch[it].gen); ans[i].v != want {
				return fmt.Errorf("phase %d: request for %v answered %q, want %q", pi, it, ans[i].v, want)
			}
		}
		for it, n := range total {
			if got, _ := f.counts(it); got != n {
				return fmt.Errorf("phase %d: %v was fetched %d times from the remote, want %d (once per cache lifetime)", pi, it, got, n)
			}
		}
		if ph.Clear {
			r.ClearCache()
			epoch = map[item]*ep{}
			rec.Label("clear")
		}
	}
	// nothing may be fetched that was never requested
	f.mu.Lock()
	defer f.mu.Unlock()
	for it, n := range f.fetches {
		if total[it] == 0 {
			return fmt.Errorf("%v was fetched %d times but never requested", it, n)
		}
	}
	return nil
}

func c07TreeExec(c c07Case, rec *Rec) error {
	v := buildVol(c.Tree.Vol)
	if c.Tree.Slow {
		v.fs.hook = func(op, p string) error { time.Sleep(300 * time.Microsecond); return nil }
	}
	ft, err := v.openTree()
	if err != nil {
		return err
	}
	nodes := append([]*PNode{v.root}, v.all...)
	seen := map[*PNode]int{}
	for gi, g := range c.Tree.Ops {
		errs := make([]error, len(g))
		var wg sync.WaitGroup
		for i, o := range g {
			n := nodes[(o/3)%len(nodes)]
			seen[n]++
			if seen[n] == 2 {
				rec.NonTrivial()
				rec.Label("tree entry used again")
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				if n.dir {
					ls, err := ft.ReadDir(n.path)
					if err == nil {
						err = cmpNames(n.path, names(ls), sortedNames(n.kids))
					}
					errs[i] = err
					return
				}
				b, err := ft.ReadFile(n.path)
				if err == nil {
					if d := diffBytes(b, n.content); d != "" {
						err = errors.New(d)
					}
				}
				errs[i] = err
			}()
		}
		wg.Wait()
		for i, e := range errs {
			if e != nil {
				return fmt.Errorf("group %d op %d: %v", gi, i, e)
			}
		}
	}
	v.fs.mu.Lock()
	defer v.fs.mu.Unlock()
	for k, n := range v.fs.calls {
		if strings.HasPrefix(k, "Stat ") {
			continue
		}
		if n > 1 {
			return fmt.Errorf("the remote was asked %d times for %q: results must be fetched once and shared", n, k)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C08

type c08Op struct {
	Op   string `json:"op"` // req burst fail fail2 heal clear flaky mixed
	It   item   `json:"it"`
	N    int    `json:"n,omitempty"`
	E    int    `json:"e,omitempty"` // which error
	More []item `json:"more,omitempty"`
}

type c08Case struct {
	Workers int      `json:"w"`
	Fill    int      `json:"fill,omitempty"` // other items of every kind that are in the cache already
	Ops     []c08Op  `json:"ops,omitempty"`
	Tree    *c08Tree `json:"tree,omitempty"`
}

type c08Tree struct {
	Vol   VolSpec  `json:"vol"`
	Steps [][5]int `json:"steps"`          // node, kind, which remote calls fail (bitmask over path depth and kind), 1 = concurrently, which error
	Part  bool     `json:"part,omitempty"` // failing calls return part of the data along with the error
}

func init() {
	reg(Prop{
		ID: "C08", Quick: 12000, Thorough: 200000,
		Rule:  "a case is a history of requests (single, bursts of up to 40 at once, bursts in which the remote recovers midway) with remote failures switched on and off per item, including failures that come with data; or a volume read while generated remote calls fail; non-trivial = a failure was reported and the same item was later served; oracle: model of per-item health and cache: a failing fetch is reported as an error with the remote's reason and no data, costs exactly one fetch per sequential request, and is forgotten: once the remote is healthy every request succeeds with exactly one fetch",
		Setup: "a remote failure is an error returned by the remote interface",
	}, func(t *rapid.T, tier Tier) c08Case {
		c := c08Case{Workers: rapid.SampledFrom([]int{1, 2, 3, 8, 32}).Draw(t, "w")}
		if rapid.IntRange(0, 2).Draw(t, "mode") == 0 {
			v := genVol(t)
			v.Tree = genTree(t, treeOpt{depth: 3, breadth: 3, dirBias: 5, name: genName, size: genSmallSize})
			tr := &c08Tree{Vol: v, Part: rapid.Bool().Draw(t, "part")}
			n := rapid.IntRange(1, 8).Draw(t, "steps")
			for i := 0; i < n; i++ {
				tr.Steps = append(tr.Steps, [5]int{rapid.IntRange(0, 60).Draw(t, "node"), rapid.IntRange(0, 2).Draw(t, "kind"), rapid.IntRange(0, 63).Draw(t, "mask"), rapid.IntRange(0, 1).Draw(t, "conc"), rapid.IntRange(0, len(remoteErrors)-1).Draw(t, "e")})
			}
			c.Tree = tr
			return c
		}
		if rapid.IntRange(0, 19).Draw(t, "fill?") == 0 {
			c.Fill = rapid.SampledFrom([]int{20, 40, 70, 130, 260, 520, 1030, 2100}).Draw(t, "fill")
		}
		n := rapid.IntRange(1, 14).Draw(t, "nops")
		for i := 0; i < n; i++ {
			o := c08Op{Op: rapid.SampledFrom([]string{"req", "req", "burst", "fail", "fail2", "heal", "clear", "flaky", "mixed"}).Draw(t, "op"), It: c08Item(t)}
			if o.Op == "fail" || o.Op == "fail2" {
				o.E = rapid.IntRange(0, len(remoteErrors)-1).Draw(t, "e")
			}
			switch o.Op {
			case "burst", "flaky", "mixed":
				o.N = rapid.SampledFrom([]int{2, 3, 5, 12, 40}).Draw(t, "n")
			}
			if o.Op == "mixed" {
				o.More = rapid.SliceOfN(rapid.Custom(c08Item), 1, 4).Draw(t, "more")
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}, c08Exec)
}

// c08Item draws from few items, so that histories touch each often: two short
// ones and, now and then, two long ones.
func c08Item(t *rapid.T) item {
	x := genItem(t, 2)
	x.IV %= 2
	if rapid.IntRange(0, 4).Draw(t, "long") == 0 {
		x.P += 6
	}
	return x
}

func c08Exec(c c08Case, rec *Rec) error {
	if c.Tree != nil {
		return c08TreeExec(c, rec)
	}
	f := newFakeRemote()
	r := requester.New(c.Workers, f, f)
	r.Start()
	defer r.Stop()
	for i := 0; i < c.Fill; i++ {
		for k := 0; k < 3; k++ {
			it := item{K: k, P: 1000 + i}
			if a := ask(r, it); a.err != nil || a.v != it.value(0) {
				return fmt.Errorf("request for %v answered %q, %v", it, a.v, a.err)
			}
		}
		if i == 30 {
			rec.Label("many items in the cache")
		}
	}
	fail := map[item]int{}
	cached := map[item]bool{}
	failedOnce := map[item]bool{}
	// checks one answer for an item that is failing (uncached) or healthy/cached
	bad := func(it item, a answer) error {
		if a.err == nil {
			return fmt.Errorf("the remote failed, but the request for %v succeeded with %q", it, a.v)
		}
		if a.v != "" {
			return fmt.Errorf("the failed request for %v also returned data %q", it, a.v)
		}
		return nil
	}
	good := func(it item, a answer) error {
		if a.err != nil {
			return fmt.Errorf("the remote is healthy, but the request for %v failed: %v", it, a.err)
		}
		if w := it.value(0); a.v != w {
			return fmt.Errorf("request for %v answered %q, want %q", it, a.v, w)
		}
		if failedOnce[it] {
			rec.NonTrivial()
			rec.Label("served after an earlier failure")
		}
		return nil
	}
	burst := func(its []item) []answer {
		ans := make([]answer, len(its))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i, it := range its {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; ans[i] = ask(r, it) }()
		}
		close(start)
		wg.Wait()
		return ans
	}
	settle := func(i int, its []item, ans []answer, before map[item]int) error {
		done := map[item]bool{}
		for k, it := range its {
			if !cached[it] && fail[it] != 0 {
				if err := bad(it, ans[k]); err != nil {
					return fmt.Errorf("op %d: %v", i, err)
				}
				failedOnce[it] = true
				rec.Label("failure reported")
			} else if err := good(it, ans[k]); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
			done[it] = true
		}
		for it := range done {
			n, _ := f.counts(it)
			d := n - before[it]
			switch {
			case cached[it]:
				if d != 0 {
					return fmt.Errorf("op %d: %v was cached, yet fetched again", i, it)
				}
			case fail[it] == 0:
				if d != 1 {
					return fmt.Errorf("op %d: %v was fetched %d times, want once", i, it, d)
				}
				cached[it] = true
			default:
				if d < 1 {
					return fmt.Errorf("op %d: the failure of %v was remembered: the remote was not asked again", i, it)
				}
			}
		}
		return nil
	}
	snap := func(its []item) map[item]int {
		m := map[item]int{}
		for _, it := range its {
			m[it], _ = f.counts(it)
		}
		return m
	}
	for i, o := range c.Ops {
		it := o.It.norm()
		switch o.Op {
		case "fail", "fail2":
			m := 1
			if o.Op == "fail2" {
				m = 2
			}
			fail[it] = m
			f.mu.Lock()
			f.fail[it] = m
			f.errOf[it] = remoteErrors[o.E%len(remoteErrors)]
			f.mu.Unlock()
		case "heal":
			fail[it] = 0
			f.mu.Lock()
			f.fail[it] = 0
			f.mu.Unlock()
		case "clear":
			r.ClearCache()
			cached = map[item]bool{}
		case "req":
			b := snap([]item{it})
			wasCached := cached[it]
			a := ask(r, it)
			if err := settle(i, []item{it}, []answer{a}, b); err != nil {
				return err
			}
			if !wasCached && fail[it] != 0 {
				if n, _ := f.counts(it); n-b[it] != 1 {
					return fmt.Errorf("op %d: one failing request for %v asked the remote %d times, want exactly once", i, it, n-b[it])
				}
				if !strings.Contains(a.err.Error(), f.errOf[it].Error()) {
					return fmt.Errorf("op %d: the failure of %v was reported without the remote's reason: %v", i, it, a.err)
				}
			}
		case "burst", "mixed":
			var its []item
			for k := 0; k < o.N; k++ {
				its = append(its, it)
				for _, m := range o.More {
					its = append(its, m.norm())
				}
			}
			b := snap(its)
			if err := settle(i, its, burst(its), b); err != nil {
				return err
			}
		case "flaky":
			// the first fetch is held, fails, and the remote is healthy from then on
			if cached[it] {
				continue
			}
			_, okBefore := f.counts(it)
			f.mu.Lock()
			f.fail[it] = 1
			f.gates[it] = true
			f.mu.Unlock()
			ans := make([]answer, o.N)
			var wg sync.WaitGroup
			for k := range ans {
				wg.Add(1)
				go func() { defer wg.Done(); ans[k] = ask(r, it) }()
			}
			for f.npending() == 0 {
				runtime.Gosched()
			}
			time.Sleep(200 * time.Microsecond)
			f.mu.Lock()
			f.gates[it] = false
			f.mu.Unlock()
			f.release(0)
			for f.npending() > 0 { // a worker that entered before the gate was lifted
				f.release(0)
			}
			time.Sleep(50 * time.Microsecond)
			f.mu.Lock()
			f.fail[it] = 0
			f.mu.Unlock()
			wdone := make(chan struct{})
			go func() { wg.Wait(); close(wdone) }()
			for waiting := true; waiting; {
				select {
				case <-wdone:
					waiting = false
				case <-time.After(time.Millisecond):
					f.release(0)
				}
			}
			fail[it] = 0
			anyOK := false
			for _, a := range ans {
				if a.err == nil {
					anyOK = true
					if a.v != it.value(0) {
						return fmt.Errorf("op %d: while the remote recovered, a request for %v answered %q", i, it, a.v)
					}
				} else if a.v != "" {
					return fmt.Errorf("op %d: a failed request for %v also returned data", i, it)
				} else {
					failedOnce[it] = true
				}
			}
			if err := good(it, ask(r, it)); err != nil {
				return fmt.Errorf("op %d: after the remote recovered: %v", i, err)
			}
			if _, ok := f.counts(it); ok-okBefore != 1 {
				return fmt.Errorf("op %d: after the remote recovered, %v was fetched successfully %d times, want once", i, it, ok-okBefore)
			}
			_ = anyOK
			cached[it] = true
		}
	}
	return nil
}

func c08TreeExec(c c08Case, rec *Rec) error {
	v := buildVol(c.Tree.Vol)
	var mu sync.Mutex
	failing := map[string]bool{}
	hit := 0
	failWith := errInjected
	v.fs.partial = c.Tree.Part
	v.fs.hook = func(op, p string) error {
		mu.Lock()
		defer mu.Unlock()
		if failing[op+" "+p] {
			hit++
			return failWith
		}
		return nil
	}
	ft, err := v.openTree()
	if err != nil {
		return err
	}
	nodes := append([]*PNode{v.root}, v.all...)
	op := func(n *PNode, kind int) error {
		switch {
		case kind == 2:
			fi, err := ft.Stat(n.path)
			if err != nil {
				return err
			}
			if fi.IsDir() != n.dir || (!n.dir && fi.Size() != int64(len(n.content))) {
				return errors.New("WRONG: stat differs")
			}
		case n.dir:
			ls, err := ft.ReadDir(n.path)
			if err != nil {
				if len(ls) > 0 {
					return errors.New("WRONG: entries along with an error")
				}
				return err
			}
			if err := cmpNames(n.path, names(ls), sortedNames(n.kids)); err != nil {
				return fmt.Errorf("WRONG: %v", err)
			}
		default:
			b, err := ft.ReadFile(n.path)
			if err != nil {
				if len(b) > 0 {
					return errors.New("WRONG: data along with an error")
				}
				return err
			}
			if d := diffBytes(b, n.content); d != "" {
				return fmt.Errorf("WRONG: %s", d)
			}
		}
		return nil
	}
	for si, s := range c.Tree.Steps {
		n := nodes[s[0]%len(nodes)]
		// the remote calls this access may need, any of which may fail
		var need []string
		for d := n.cpath; ; d = path.Dir(d) {
			if d != n.cpath || n.dir {
				need = append(need, "ReadFile "+path.Join(d, "gocryptfs.diriv"), "ReadDir "+d)
			}
			if d == v.root.cpath || d == "/" {
				break
			}
		}
		need = append(need, "Stat "+n.cpath, "ReadFile "+n.cpath)
		mu.Lock()
		failing = map[string]bool{}
		failWith = remoteErrors[s[4]%len(remoteErrors)]
		for i, k := range need {
			if s[2]>>(uint(i)%6)&1 == 1 {
				failing[k] = true
			}
		}
		h0 := hit
		mu.Unlock()
		reps := 1
		if s[3] == 1 {
			reps = 8
		}
		errs := make([]error, reps)
		var wg sync.WaitGroup
		for k := 0; k < reps; k++ {
			wg.Add(1)
			go func() { defer wg.Done(); errs[k] = op(n, s[1]) }()
		}
		wg.Wait()
		mu.Lock()
		hits := hit - h0
		failing = map[string]bool{}
		mu.Unlock()
		for _, e := range errs {
			if e != nil && strings.HasPrefix(e.Error(), "WRONG") {
				return fmt.Errorf("step %d, %q, while remote calls failed: %v", si, n.path, e)
			}
			if e == nil && hits > 0 && reps == 1 {
				return fmt.Errorf("step %d: a remote call failed (%d), yet the access to %q succeeded", si, hits, n.path)
			}
			if e != nil && hits == 0 {
				return fmt.Errorf("step %d: no remote call failed, yet the access to %q did: %v", si, n.path, e)
			}
			if e != nil {
				rec.Label("tree access failed")
				rec.NonTrivial()
			}
		}
		// healthy again: everything must work, for everyone at once
		for k := 0; k < reps; k++ {
			wg.Add(1)
			go func() { defer wg.Done(); errs[k] = op(n, s[1]) }()
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				return fmt.Errorf("step %d: the remote recovered, but the access to %q still fails: %v", si, n.path, e)
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C09

type c09Scn struct {
	Kind    string `json:"kind"`
	Workers int    `json:"w"`
	N       int    `json:"n"`
	Keys    int    `json:"keys"`
	Ms      int    `json:"ms"` // stall
	Fail    bool   `json:"fail"`
	K       int    `json:"k"`
	Sizes   []int  `json:"sizes,omitempty"`
}

type c09Case struct {
	Scn []c09Scn `json:"scn"`
}

const patience = 45 * time.Second // far beyond what any healthy request takes

func init() {
	reg(Prop{
		ID: "C09", Quick: 16, Thorough: 120, CaseTimeout: 240 * time.Second, ShrinkTime: 60 * time.Second, Recycle: 10,
		Rule:  "a case is a set of scenarios run at the same time: bursts of up to 3000 requests over few or many items on 1-32 workers with fast, slow or failing fetches, and stalls in which the remote answers nobody for 21-23 s and then recovers, on the request layer and on a whole tree; non-trivial = the case contains a stall longer than 20 s; oracle: once the remote answers again every outstanding request ends, every new request succeeds with the right value, as many fetches run in parallel as there are workers, and listings reported as successful are complete",
		Setup: fmt.Sprintf("a request that has not ended %v after the remote became responsive, on two runs in two processes, counts as hanging", patience),
	}, func(t *rapid.T, tier Tier) c09Case {
		var c c09Case
		for i := 0; i < 6; i++ {
			c.Scn = append(c.Scn, c09Scn{Kind: "stall", Workers: rapid.SampledFrom([]int{1, 2, 4, 32}).Draw(t, "w"), N: rapid.IntRange(1, 60).Draw(t, "n"), Keys: rapid.IntRange(1, 50).Draw(t, "keys"), Ms: rapid.IntRange(21000, 23000).Draw(t, "ms"), Fail: rapid.Bool().Draw(t, "fail"), K: rapid.IntRange(0, 2).Draw(t, "k")})
		}
		for i := 0; i < 3; i++ {
			c.Scn = append(c.Scn, c09Scn{Kind: "treestall", Workers: rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "w"), N: rapid.IntRange(1, 3).Draw(t, "n"), Keys: rapid.IntRange(2, 12).Draw(t, "keys"), Ms: rapid.IntRange(21000, 22500).Draw(t, "ms")})
		}
		for i := 0; i < 12; i++ {
			c.Scn = append(c.Scn, c09Scn{Kind: "burst", Workers: rapid.SampledFrom([]int{1, 2, 4, 32}).Draw(t, "w"), N: rapid.SampledFrom([]int{10, 100, 1100, 3000}).Draw(t, "n"), Keys: rapid.SampledFrom([]int{1, 2, 5, 100, 3000}).Draw(t, "keys"), Ms: rapid.IntRange(0, 3).Draw(t, "ms"), Fail: rapid.IntRange(0, 3).Draw(t, "fail") == 0, K: rapid.IntRange(0, 2).Draw(t, "k")})
		}
		return c
	}, c09Exec)
}

func c09Exec(c c09Case, rec *Rec) error {
	errs := make([]error, len(c.Scn))
	var wg sync.WaitGroup
	for i, s := range c.Scn {
		rec.Label(s.Kind)
		if s.Ms > 20000 {
			rec.NonTrivial()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			var err error
			switch s.Kind {
			case "stall":
				err = c09Stall(s, rec)
			case "treestall":
				err = c09TreeStall(s, rec)
			default:
				for k := 0; k < 8 && err == nil; k++ {
					err = c09Burst(s, k, rec)
				}
			}
			if err != nil {
				errs[i] = fmt.Errorf("scenario %d %+v: %w", i, s, err)
			}
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// parallelism checks that w fetches can be in flight at the same time.
func c09Parallel(r *requester.Requester, f *fakeRemote, w, base int) error {
	f.mu.Lock()
	f.gate = true
	f.mu.Unlock()
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); ask(r, item{K: 0, P: 1000 + base + i}) }()
	}
	ok := within(patience, func() {
		for f.npending() < w {
			time.Sleep(time.Millisecond)
		}
	})
	n := f.npending()
	f.releaseAll()
	if !ok {
		return fmt.Errorf("after the remote recovered only %d of %d workers still serve requests", n, w)
	}
	if !within(patience, wg.Wait) {
		return fmt.Errorf("requests hang although the remote answers")
	}
	return nil
}

func c09Stall(s c09Scn, rec *Rec) error {
	f := newFakeRemote()
	f.gate = true
	r := requester.New(s.Workers, f, f)
	r.Start()
	its := make([]item, s.N)
	failing := map[item]bool{}
	for i := range its {
		its[i] = item{K: s.K, P: 1000 + i%s.Keys}
		if s.Fail && i%3 == 0 {
			failing[its[i]] = true
			f.fail[its[i]] = 1
		}
	}
	ans := make([]answer, s.N)
	var wg sync.WaitGroup
	for i, it := range its {
		wg.Add(1)
		go func() { defer wg.Done(); ans[i] = ask(r, it) }()
	}
	time.Sleep(time.Duration(s.Ms) * time.Millisecond)
	f.releaseAll()
	if !within(patience, wg.Wait) {
		return errors.New("requests made during a stall of the remote never returned after it recovered")
	}
	for i, a := range ans {
		if a.err == nil && a.v != bigValue(its[i]) {
			return fmt.Errorf("request for %v answered %q", its[i], a.v)
		}
		if a.err == nil && failing[its[i]] {
			return errors.New("a failing fetch was reported as success")
		}
		if a.err != nil {
			rec.Label("request gave up during the stall")
		}
	}
	f.mu.Lock()
	f.fail = map[item]int{}
	f.mu.Unlock()
	// Work that was queued during the stall is still being done, and a new
	// request may rightly join a fetch that has failed but is not recorded yet.
	// When all workers are busy with other things at once, it is over.
	if err := c09Parallel(r, f, s.Workers, 200000); err != nil {
		return err
	}
	// fresh requests
	fresh := make([]answer, 2*s.Keys)
	var wg2 sync.WaitGroup
	for i := range fresh {
		wg2.Add(1)
		go func() { defer wg2.Done(); fresh[i] = ask(r, item{K: s.K, P: 1000 + i}) }()
	}
	if !within(patience, wg2.Wait) {
		return errors.New("after a stall of the remote, new requests hang although it answers again")
	}
	for i, a := range fresh {
		it := item{K: s.K, P: 1000 + i}
		if a.err != nil {
			return fmt.Errorf("after a stall of the remote, a new request for item %d failed although it answers again: %v", i, a.err)
		}
		if a.v != bigValue(it) {
			return fmt.Errorf("after a stall, request for item %d answered %q, want %q", i, a.v, bigValue(it))
		}
	}
	return c09Parallel(r, f, s.Workers, 100000)
}

func bigValue(it item) string { return it.value(0) }

func c09Burst(s c09Scn, round int, rec *Rec) error {
	f := newFakeRemote()
	if s.Ms > 0 {
		f.slow = func(it item) { time.Sleep(time.Duration(s.Ms*it.P%7) * 100 * time.Microsecond) }
	}
	r := requester.New(s.Workers, f, f)
	r.Start()
	its := make([]item, s.N)
	failing := map[item]bool{}
	for i := range its {
		its[i] = item{K: s.K, P: 1000 + (i*7+round)%s.Keys}
		if s.Fail && its[i].P%4 == 0 {
			failing[its[i]] = true
			f.fail[its[i]] = 1
		}
	}
	ans := make([]answer, s.N)
	var wg sync.WaitGroup
	for i, it := range its {
		wg.Add(1)
		go func() { defer wg.Done(); ans[i] = ask(r, it) }()
	}
	if !within(patience, wg.Wait) {
		return fmt.Errorf("a burst of %d requests over %d items never finished although the remote answers", s.N, s.Keys)
	}
	for i, a := range ans {
		if failing[its[i]] {
			if a.err == nil {
				return errors.New("a failing fetch was reported as success")
			}
			continue
		}
		if a.err != nil {
			return fmt.Errorf("a request in a burst failed although the remote answers: %v", a.err)
		}
		if a.v != bigValue(its[i]) {
			return fmt.Errorf("request %v answered %q", its[i], a.v)
		}
	}
	r.Stop()
	return nil
}

// c09TreeStall: every worker is held by a fetch for more than 20 s; meanwhile
// directories that are already known are listed. A listing may fail, but one
// that is reported as successful is complete; after the stall all works.
func c09TreeStall(s c09Scn, rec *Rec) error {
	vs := VolSpec{Seed: uint64(s.Ms), Pw: []byte("pw"), Root: "/v", Workers: s.Workers, Flags: VolFlags{Raw64: true}, Rev: true}
	d := TNode{Name: []byte("d"), Dir: true}
	for i := 0; i < s.Keys; i++ {
		d.Kids = append(d.Kids, TNode{Name: []byte(fmt.Sprintf("kid%02d", i)), Size: i})
	}
	vs.Tree = append(vs.Tree, d)
	for i := 0; i < s.Workers; i++ {
		vs.Tree = append(vs.Tree, TNode{Name: []byte(fmt.Sprintf("big%d", i)), Size: 10})
	}
	v := buildVol(vs)
	ft, err := v.openTree()
	if err != nil {
		return err
	}
	// warm: only the first entry of d's listing is looked up, so that its
	// listing and IV are cached, but not the other names
	if _, err := ft.ReadFile(fmt.Sprintf("/d/kid%02d", s.Keys-1)); err != nil {
		return err
	}
	if _, err := ft.ReadDir("/"); err != nil {
		return err
	}
	gate := make(chan struct{})
	v.fs.mu.Lock()
	v.fs.hook = func(op, p string) error { <-gate; return nil }
	v.fs.mu.Unlock()
	var wg sync.WaitGroup
	for i := 0; i < s.Workers; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); _, _ = ft.ReadFile(fmt.Sprintf("/big%d", i)) }()
	}
	time.Sleep(300 * time.Millisecond)
	var lerr error
	lists := make([]error, s.N)
	for i := 0; i < s.N; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ls, err := ft.ReadDir("/d")
			if err != nil {
				rec.Label("listing failed during the stall")
				return
			}
			rec.Label("listing succeeded during the stall")
			lists[i] = cmpNames("a listing reported as successful during a stall of the remote is incomplete: /d", names(ls), sortedNames(v.root.kids["d"].kids))
		}()
	}
	time.Sleep(time.Duration(s.Ms) * time.Millisecond)
	close(gate)
	if !within(patience, wg.Wait) {
		return errors.New("tree accesses made during a stall of the remote never returned after it recovered")
	}
	for _, e := range lists {
		if e != nil {
			return e
		}
	}
	for _, n := range v.all {
		ok := within(patience, func() {
			if n.dir {
				var ls []os.FileInfo
				ls, lerr = ft.ReadDir(n.path)
				if lerr == nil {
					lerr = cmpNames(n.path, names(ls), sortedNames(n.kids))
				}
				return
			}
			var b []byte
			b, lerr = ft.ReadFile(n.path)
			if lerr == nil && !bytes.Equal(b, n.content) {
				lerr = errors.New("wrong content")
			}
		})
		if !ok {
			return fmt.Errorf("after a stall of the remote, an access to %q hangs although it answers again", n.path)
		}
		if lerr != nil {
			return fmt.Errorf("after a stall of the remote, an access to %q fails although it answers again: %v", n.path, lerr)
		}
	}
	return nil
}
