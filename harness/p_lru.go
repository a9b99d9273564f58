//go:build all || c10

package main

// C10: the directory lookup cache is an LRU cache.

import (
	"fmt"
	"sync"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"pgregory.net/rapid"
)

type c10Op struct {
	Op  string `json:"op"` // store find clear conc
	K   int    `json:"k,omitempty"`
	V   int    `json:"v,omitempty"`
	Ops []int  `json:"ops,omitempty"` // conc: key indexes, even = find, odd = store
}

type c10Case struct {
	Cap int     `json:"cap"`
	Ops []c10Op `json:"ops"`
}

func init() {
	reg(Prop{
		ID: "C10", Quick: 24000, Thorough: 400000,
		Rule:  "a case is a cache of capacity 1-20 and up to 120 operations (store, overwrite, find, clear, and phases of concurrent finds and stores) over slightly more keys than fit; non-trivial = at least one eviction after an entry had been refreshed; oracle: an ordered-list LRU model, probed at the end by filling the cache with fresh keys one at a time and checking which entries leave",
		Setup: "capacity at least 1",
	}, func(t *rapid.T, tier Tier) c10Case {
		c := c10Case{Cap: rapid.SampledFrom([]int{1, 2, 3, 4, 5, 8, 16, 20}).Draw(t, "cap")}
		nk := c.Cap + rapid.IntRange(0, 4).Draw(t, "extra")
		n := rapid.IntRange(1, 120).Draw(t, "n")
		for i := 0; i < n; i++ {
			o := c10Op{K: rapid.IntRange(0, nk).Draw(t, "k")}
			switch rapid.IntRange(0, 99).Draw(t, "op") {
			case 99:
				o.Op = "clear"
			case 98:
				o.Op = "conc"
				o.Ops = rapid.SliceOfN(rapid.IntRange(0, 2*nk), 2, 60).Draw(t, "ops")
			default:
				o.Op = "find"
				if rapid.Bool().Draw(t, "st") {
					o.Op = "store"
					o.V = rapid.IntRange(0, 5).Draw(t, "v")
				}
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}, c10Exec)
}

func c10Exec(c c10Case, rec *Rec) error {
	f := filetree.NewFastCache(c.Cap)
	var order []int // least recently used first
	val := map[int]string{}
	refreshed := false
	key := func(k int) string { return fmt.Sprintf("/plain/%d", k) }
	touch := func(k int) {
		for i, x := range order {
			if x == k {
				order = append(append(append([]int{}, order[:i]...), order[i+1:]...), k)
				return
			}
		}
		order = append(order, k)
	}
	has := func(k int) bool { _, ok := val[k]; return ok }
	find := func(i, k int) error {
		m, ok := f.Find(key(k))
		if ok != has(k) {
			return fmt.Errorf("op %d: capacity %d: Find(%q) found=%v, want %v (model, least recent first: %v)", i, c.Cap, key(k), ok, has(k), order)
		}
		if ok {
			if m.PlaintextPath != key(k) || m.CiphertextPath != val[k] {
				return fmt.Errorf("op %d: Find(%q) = %q -> %q, want %q", i, key(k), m.PlaintextPath, m.CiphertextPath, val[k])
			}
			if order[len(order)-1] != k {
				refreshed = true
			}
			touch(k)
		} else if m.PlaintextPath != "" || m.CiphertextPath != "" {
			return fmt.Errorf("op %d: a miss returned a mapping", i)
		}
		return nil
	}
	store := func(k int, v string) {
		f.Store(key(k), v)
		if !has(k) && len(order) == c.Cap {
			delete(val, order[0])
			order = order[1:]
			rec.Label("eviction")
			if refreshed {
				rec.NonTrivial()
			}
		} else if has(k) && order[len(order)-1] != k {
			refreshed = true
		}
		val[k] = v
		touch(k)
	}
	for i, o := range c.Ops {
		switch o.Op {
		case "store":
			store(o.K, fmt.Sprintf("cipher-%d-%d", o.K, o.V))
		case "find":
			if err := find(i, o.K); err != nil {
				return err
			}
		case "clear":
			f.Clear()
			order, val = nil, map[int]string{}
		case "conc":
			rec.Label("concurrent phase")
			errs := make([]error, 4)
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := range o.Ops {
						x := o.Ops[(j+g*7)%len(o.Ops)]
						k := 500 + x/2
						if x%2 == 1 {
							f.Store(key(k), fmt.Sprintf("conc-%d", k))
						} else if m, ok := f.Find(key(k)); ok && (m.PlaintextPath != key(k) || m.CiphertextPath != fmt.Sprintf("conc-%d", k)) {
							errs[g] = fmt.Errorf("op %d: concurrent Find(%q) = %q -> %q", i, key(k), m.PlaintextPath, m.CiphertextPath)
						}
					}
				}()
			}
			wg.Wait()
			for _, e := range errs {
				if e != nil {
					return e
				}
			}
			// how many fit is still exact
			n := 0
			for k := 0; k < 600; k++ {
				if _, ok := f.Find(key(k)); ok {
					n++
				}
			}
			if n > c.Cap {
				return fmt.Errorf("op %d: the cache of capacity %d holds %d entries", i, c.Cap, n)
			}
			// bring it into a known state without Clear: store cap known keys
			order, val = nil, map[int]string{}
			for k := 0; k < c.Cap; k++ {
				f.Store(key(700+k), "x")
				order = append(order, 700+k)
				val[700+k] = "x"
			}
		}
	}
	// Which entries leave, in which order: push fresh keys one at a time.
	live := append([]int{}, order...)
	for j := 0; j < c.Cap && len(live) > 0; j++ {
		wasFull := len(order) == c.Cap
		store(900+j, "fresh")
		if !wasFull {
			continue
		}
		// the model evicted live[0]; a miss does not refresh anything
		if err := find(1000+j, live[0]); err != nil {
			return fmt.Errorf("while refilling: %v", err)
		}
		live = live[1:]
	}
	for j := 0; j < c.Cap; j++ {
		if err := find(2000+j, 900+j); has(900+j) && err != nil {
			return fmt.Errorf("after refilling: %v", err)
		}
	}
	return nil
}
