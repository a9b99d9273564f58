//go:build all || c21

package main

// C21: the pool of connections to the remote.

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/flawedmatrix/gocryptsftp/backend"
	"golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
)

type c21Call struct {
	Op    string `json:"op"`              // file, dir, stat
	Miss  bool   `json:"miss,omitempty"`  // the target does not exist
	Root  bool   `json:"root,omitempty"`  // the target is the remote's root directory
	Fault string `json:"fault,omitempty"` // err, kill (the connection), chan (the session on it)
	At    int    `json:"at,omitempty"`    // which of the call's requests it strikes (0 = first)
}

type c21Step struct {
	Kind  string    `json:"kind"` // calls, killidle, down, nosub (connections but no SFTP sessions), up
	Calls []c21Call `json:"calls,omitempty"`
	Rest  string    `json:"rest,omitempty"` // killidle: how many idle connections die ("all" or "some")
}

type c21Case struct {
	Seed  uint64    `json:"seed"`
	Sizes []int     `json:"sizes"`
	Real  int       `json:"real,omitempty"` // the remote refuses realpath requests with this status
	Steps []c21Step `json:"steps"`
}

const c21Max = 48

func init() {
	reg(Prop{
		ID: "C21", Quick: 1200, Thorough: 20000,
		Rule:  "a case is a remote with files of 0-300,000 bytes and directories, and 1-12 steps: 1-48 simultaneous calls (each held at the remote until all have arrived), in which chosen calls meet an error, a dropped connection or an ended session at a chosen request, targets that do not exist, idle connections dropped, the remote going down or refusing sessions and coming back, listings of several hundred entries cut short in between; non-trivial = two or more calls at once, or a connection was lost; oracle: the remote's record of which connection carried which request, exact results, and a count of lost connections against failed calls",
		Setup: "the remote answers every request and every ping on a connection it has not dropped",
		Fixed: func(tier Tier, seed uint64) []any {
			big := []int{16<<20 + 1, 20_000_000, 37_000_001}
			if tier == "thorough" {
				big = append(big, 70_000_000, 140_000_000)
			}
			var out []any
			for i, n := range big {
				c := c21Case{Seed: seed + uint64(i), Sizes: append([]int{n}, make([]int, c21Max-1)...)}
				whole := c21Step{Kind: "calls", Calls: []c21Call{{Op: "file"}}}
				cut := c21Step{Kind: "calls", Calls: []c21Call{{Op: "file", Fault: []string{"kill", "err"}[i%2], At: 400}}}
				c.Steps = append(c.Steps, whole)
				for len(c.Steps) < c21Max { // step i reads file 7i mod 48
					c.Steps = append(c.Steps, c21Step{Kind: "up"})
				}
				c.Steps = append(c.Steps, cut)
				out = append(out, c)
			}
			return out
		},
	}, func(t *rapid.T, tier Tier) c21Case {
		c := c21Case{Seed: rapid.Uint64().Draw(t, "seed")}
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "nsizes"); i < n; i++ {
			c.Sizes = append(c.Sizes, rapid.OneOf(rapid.IntRange(0, 5000), rapid.SampledFrom([]int{0, 1, 32767, 32768, 32769, 65536, 131072, 300000})).Draw(t, fmt.Sprint("size", i)))
		}
		if rapid.IntRange(0, 3).Draw(t, "real") == 0 {
			c.Real = rapid.SampledFrom([]int{2, 3, 4, 8}).Draw(t, "realstatus")
		}
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "nsteps"); i < n; i++ {
			l := fmt.Sprint("s", i)
			k := rapid.IntRange(0, 15).Draw(t, l)
			switch {
			case k == 0:
				c.Steps = append(c.Steps, c21Step{Kind: "killidle", Rest: rapid.SampledFrom([]string{"all", "some"}).Draw(t, l+"/rest")})
				continue
			case k == 1:
				c.Steps = append(c.Steps, c21Step{Kind: rapid.SampledFrom([]string{"down", "nosub"}).Draw(t, l+"/how")})
				continue
			case k == 2:
				c.Steps = append(c.Steps, c21Step{Kind: "up"})
				continue
			}
			w := 1
			switch {
			case k < 8:
			case k < 14:
				w = rapid.IntRange(2, 10).Draw(t, l+"/w")
			default:
				w = rapid.IntRange(11, c21Max).Draw(t, l+"/w")
			}
			s := c21Step{Kind: "calls"}
			for j := 0; j < w; j++ {
				lj := fmt.Sprintf("%s.%d", l, j)
				q := c21Call{Op: rapid.SampledFrom([]string{"file", "file", "dir", "stat"}).Draw(t, lj)}
				f := rapid.IntRange(0, 11).Draw(t, lj+"/f")
				if f == 0 {
					q.Miss = true
				}
				if f == 4 && q.Op != "file" {
					q.Root = true
				}
				if f >= 1 && f <= 3 {
					q.Fault = []string{"err", "kill", "chan"}[f-1]
					if f == 1 {
						q.Fault = rapid.SampledFrom([]string{"err", "err3", "err2", "err8", "err7"}).Draw(t, lj+"/err")
					}
					q.At = rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 2, 3, 6, 7, 8, 10}).Draw(t, lj+"/at")
				}
				s.Calls = append(s.Calls, q)
			}
			c.Steps = append(c.Steps, s)
		}
		return c
	}, c21Exec)
}

type c21Live struct {
	mu      sync.Mutex
	arrived map[string]int // path -> connection of its first request
	conns   map[string]map[int]bool
	seen    map[string]int // requests per path
	want    map[string]c21Call
	struck  map[string]bool // the fault took place
	last    time.Time
	gate    chan struct{}
}

func c21Exec(c c21Case, rec *Rec) error {
	fs := newMemFS()
	fs.root.mtime = time.Unix(1300000000, 0)
	files := make([][]byte, c21Max)
	for i := range files {
		files[i] = prng(c.Seed+uint64(i), c.Sizes[i%len(c.Sizes)])
		d := fs.mkdirAll(fmt.Sprintf("/d%d", i))
		d.mtime = time.Unix(1600000000+int64(i), 0)
		n := i % 5
		if i%6 == 5 {
			n = 90 + i*8 // listings in several parts
			if i%12 == 11 {
				n += 520
			}
		}
		for j := 0; j < n; j++ {
			d.add(&MNode{name: fmt.Sprint("e", j), data: make([]byte, j*10), mode: 0o640, mtime: time.Unix(1500000000+int64(j), 0)})
		}
		fs.root.add(&MNode{name: fmt.Sprintf("f%d", i), data: files[i], mode: 0o644, mtime: time.Unix(1400000000+int64(i), 0)})
	}
	host, key := signerFrom(c.Seed+1), signerFrom(c.Seed+2)
	r, err := newSSHRemote(fs, host, "ruser", key.PublicKey())
	if err != nil {
		return err
	}
	defer r.close()
	if c.Real != 0 {
		r.noReal = rStatus + rAction(c.Real)
		rec.Label("realpath refused")
	}
	lv := &c21Live{}
	r.decide = func(q rreq) rAction {
		lv.mu.Lock()
		if _, ok := lv.want[q.path]; !ok {
			lv.mu.Unlock()
			return rOK
		}
		w := lv.want[q.path]
		n := lv.seen[q.path]
		lv.seen[q.path]++
		if n == 0 {
			lv.arrived[q.path] = q.conn
			lv.last = time.Now()
		}
		if lv.conns[q.path] == nil {
			lv.conns[q.path] = map[int]bool{}
		}
		lv.conns[q.path][q.conn] = true
		gate := lv.gate
		hit := w.Fault != "" && n == w.At
		if hit {
			lv.struck[q.path] = true
		}
		lv.mu.Unlock()
		if n == 0 {
			<-gate
		}
		if hit {
			switch w.Fault {
			case "kill":
				return rKill
			case "chan":
				return rChan
			}
			if len(w.Fault) > 3 {
				return rStatus + rAction(w.Fault[3]-'0')
			}
			return rErr
		}
		return rOK
	}
	prov := backend.NewProvider(r.addr, clientConfig("ruser", key, host.PublicKey()), discardLog())
	down := false
	nosub := false // down: connections are made, but sessions refused
	idle := 0      // healthy idle connections, if dead == 0
	total := 0     // upper bound of connections in the pool, while dead > 0
	dead := 0      // upper bound of dead connections still in the pool
	for si, s := range c.Steps {
		switch s.Kind {
		case "killidle", "down", "nosub":
			if s.Kind != "killidle" {
				if down {
					continue
				}
				down = true
				nosub = s.Kind == "nosub"
				r.mu.Lock()
				r.refuse = s.Kind == "down"
				r.noSftp = s.Kind == "nosub"
				r.mu.Unlock()
			}
			n := 0
			r.mu.Lock()
			for _, cn := range r.live {
				cn.Close()
				n++
				if s.Rest == "some" && n*2 > len(r.live) {
					break
				}
			}
			r.mu.Unlock()
			if n > 0 {
				rec.NonTrivial()
				rec.Label("idle connections dropped")
			}
			if dead == 0 {
				total = n
				if s.Rest == "some" {
					total = idle
				}
			}
			dead += n
			continue
		case "up":
			if !down {
				continue
			}
			down = false
			r.mu.Lock()
			r.refuse = false
			r.noSftp = false
			r.mu.Unlock()
			continue
		}
		w := len(s.Calls)
		if w > 1 {
			rec.NonTrivial()
			rec.Label("simultaneous calls")
		}
		gate := make(chan struct{})
		lv.mu.Lock()
		lv.arrived, lv.conns, lv.seen, lv.want, lv.struck, lv.last, lv.gate = map[string]int{}, map[string]map[int]bool{}, map[string]int{}, map[string]c21Call{}, map[string]bool{}, time.Now(), gate
		paths := make([]string, w)
		for i, q := range s.Calls {
			ix := (i + si*7) % c21Max
			p := fmt.Sprintf("/f%d", ix)
			if q.Op == "dir" || q.Op == "stat" && i%2 == 0 {
				p = fmt.Sprintf("/d%d", ix)
			}
			if q.Root && lv.want["/"].Op == "" {
				p = "/"
			}
			if q.Miss {
				p = fmt.Sprintf("/missing%d", ix)
			}
			paths[i] = p
			lv.want[p] = q
		}
		lv.mu.Unlock()
		made := r.connsMade()
		errs := make([]error, w)  // verdicts
		fails := make([]error, w) // the calls' own errors
		var wg sync.WaitGroup
		for i, q := range s.Calls {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i], fails[i] = c21Do(prov, fs, q, paths[i])
			}()
		}
		finished := make(chan struct{})
		go func() { wg.Wait(); close(finished) }()
		// hold every call at the remote until all have arrived
		start := time.Now()
		for {
			lv.mu.Lock()
			n, last := len(lv.arrived), lv.last
			lv.mu.Unlock()
			if n == w {
				break
			}
			patience := 15 * time.Second
			if dead > 0 || down {
				patience = 300 * time.Millisecond
			}
			if time.Since(last) > patience || time.Since(start) > 30*time.Second {
				break
			}
			select {
			case <-finished:
				n = w
			case <-time.After(time.Millisecond):
			}
			if n == w {
				break
			}
		}
		lv.mu.Lock()
		by := map[int]string{}
		for p, id := range lv.arrived {
			if o := by[id]; o != "" {
				lv.mu.Unlock()
				close(gate)
				return fmt.Errorf("step %d: the calls for %s and %s, running at the same time, share connection %d", si, o, p, id)
			}
			by[id] = p
		}
		arrived := len(lv.arrived)
		lv.mu.Unlock()
		close(gate)
		select {
		case <-finished:
		case <-time.After(60 * time.Second):
			return fmt.Errorf("step %d: not every call of %d ended within 60 s", si, w)
		}
		lv.mu.Lock()
		lost, spurious := 0, 0
		var verdict error
		for i, q := range s.Calls {
			p := paths[i]
			struck := lv.struck[p]
			if struck && !strings.HasPrefix(q.Fault, "err") {
				lost++
			}
			if len(lv.conns[p]) > 1 {
				verdict = fmt.Errorf("step %d: one call for %s used %d connections", si, p, len(lv.conns[p]))
			}
			if errs[i] != nil {
				verdict = fmt.Errorf("step %d: %v", si, errs[i])
				continue
			}
			mustFail := q.Miss || struck || down || q.Op == "file" && strings.HasPrefix(p, "/d")
			if mustFail && fails[i] == nil {
				verdict = fmt.Errorf("step %d: %s of %s succeeded although the remote failed (missing %v, struck %v, down %v)", si, q.Op, p, q.Miss, struck, down)
			}
			if !mustFail && fails[i] != nil {
				spurious++
				if dead == 0 {
					verdict = fmt.Errorf("step %d: %s of %s failed although the remote answers and every lost connection has already been noticed: %v", si, q.Op, p, fails[i])
				}
			}
		}
		lv.mu.Unlock()
		if verdict != nil {
			return verdict
		}
		if lost > 0 {
			rec.NonTrivial()
			rec.Label("connection lost during a call")
		}
		if !down {
			if spurious > dead {
				return fmt.Errorf("step %d: %d calls failed, but only %d connections were lost", si, spurious, dead)
			}
		}
		if dead > 0 || down {
			if !down {
				dead -= spurious
				// a round without a failure that used every pooled
				// connection leaves no dead one
				if spurious == 0 && arrived == w && w >= total {
					dead = 0
				}
			}
			total = min(32, max(total, w))
			if nosub && down {
				// every connection was dropped, and none of the new ones
				// got a session: nobody can be using one
				rec.NonTrivial()
				rec.Label("sessions refused")
				if got := settle(r, 0); got > 0 {
					return fmt.Errorf("step %d: %d connections without a session are still open after all %d calls failed", si, got, w)
				}
			}
			if dead == 0 && !down {
				// resynchronise
				idle = settle(r, -1)
			}
			continue
		}
		// everything is healthy: the books must balance
		if d := r.connsMade() - made; d > max(0, w-idle) {
			return fmt.Errorf("step %d: %d calls at once with %d idle connections opened %d new ones", si, w, idle, d)
		}
		use := w
		if arrived < w {
			use = 0 // not all were under way at once; only the upper bound holds
		}
		hi := min(32, max(idle, w)-lost)
		if max(idle, w)-lost < 0 {
			hi = 0
		}
		got := settle(r, hi)
		if got > 32 {
			return fmt.Errorf("step %d: %d connections are kept open while idle", si, got)
		}
		if got > hi {
			return fmt.Errorf("step %d: %d connections are open after %d calls at once, %d lost, %d idle before", si, got, w, lost, idle)
		}
		if use > 0 && got < hi {
			return fmt.Errorf("step %d: working connections were not kept: %d are open after %d calls at once, %d lost, %d idle before", si, got, w, lost, idle)
		}
		idle = got
		end := time.Now().Add(10 * time.Second)
		for r.openHandles() != 0 {
			if time.Now().After(end) {
				return fmt.Errorf("step %d: %d file handles are still open at the remote after all calls ended", si, r.openHandles())
			}
			time.Sleep(time.Millisecond)
		}
	}
	if m := r.mutations(); len(m) > 0 {
		return fmt.Errorf("the remote received %+v", m[0])
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, a := range r.auths {
		if a != "publickey:ruser" {
			return fmt.Errorf("the remote was offered %q", a)
		}
	}
	return nil
}

// settle waits until the number of open connections is n, or no longer changes.
func settle(r *SSHRemote, n int) int {
	limit := 10 * time.Second
	if n < 0 {
		limit = 200 * time.Millisecond
	}
	end := time.Now().Add(limit)
	for {
		l := r.liveCount()
		if l == n || time.Now().After(end) {
			return l
		}
		time.Sleep(time.Millisecond)
	}
}

// c21Do makes one call; the first error is a verdict, the second the call's.
func c21Do(prov *backend.Provider, fs *MemFS, q c21Call, p string) (error, error) {
	n := fs.lookup(p)
	switch q.Op {
	case "file":
		b, err := prov.ReadFile(p)
		if err != nil {
			if len(b) != 0 {
				return fmt.Errorf("reading %s gave %d bytes and an error", p, len(b)), nil
			}
			return nil, err
		}
		if n == nil || !bytes.Equal(b, n.data) {
			return fmt.Errorf("reading %s: wrong data (%d bytes)", p, len(b)), nil
		}
	case "dir":
		ls, err := prov.ReadDir(p)
		if err != nil {
			if len(ls) != 0 {
				return fmt.Errorf("listing %s gave %d entries and an error", p, len(ls)), nil
			}
			return nil, err
		}
		if n == nil || len(ls) != len(n.kids) {
			return fmt.Errorf("listing %s: %d entries", p, len(ls)), nil
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].Name() < ls[j].Name() })
		kids := append([]*MNode{}, n.kids...)
		sort.Slice(kids, func(i, j int) bool { return kids[i].name < kids[j].name })
		for i, k := range kids {
			if err := sameInfo(p, ls[i], k, k.name); err != nil {
				return err, nil
			}
		}
	case "stat":
		fi, err := prov.Stat(p)
		if err != nil {
			return nil, err
		}
		if n == nil {
			return fmt.Errorf("stat %s succeeded", p), nil
		}
		if err := sameInfo(p, fi, n, path.Base(p)); err != nil {
			return err, nil
		}
	}
	return nil, nil
}

func sameInfo(p string, fi os.FileInfo, n *MNode, name string) error {
	if fi == nil || fi.Name() != name || fi.Mode() != n.Mode() || !fi.ModTime().Equal(n.mtime) || !n.dir && fi.Size() != n.Size() || fi.IsDir() != n.IsDir() {
		return fmt.Errorf("attributes under %s differ: %+v, want %s %v %d %v", p, fi, name, n.Mode(), n.Size(), n.mtime)
	}
	return nil
}

var _ ssh.Signer
