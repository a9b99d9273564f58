//go:build all || c23

package main

// C23: nonces, file IDs, salts and master keys are fresh.

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"pgregory.net/rapid"
)

type c23Case struct {
	Goroutines int   `json:"g"`
	Script     []int `json:"script"` // what each goroutine draws, repeated
	Rounds     int   `json:"rounds"`
	Procs      int   `json:"procs,omitempty"` // helper processes doing the same
	Conf       int   `json:"conf,omitempty"`  // volumes created
}

const c23Kinds = 9

func init() {
	modes["randhelper"] = c23Helper
	reg(Prop{
		ID: "C23", Quick: 400, Thorough: 12000,
		Rule:  "a case is a script of draws (content nonces of 128 and 96 bits through block encryption and directly, runs of blocks, file headers, salts, random bytes of several lengths) run by 1-16 goroutines, sometimes in two separate processes, sometimes with new volumes created (either random source); non-trivial = at least 1,000 values drawn; oracle: no 8-byte window occurs twice among all values, no value is constant or zero, and every bit, every byte position, every difference between two positions and between successive values is unbiased (12 sigma)",
		Setup: "statistical bounds are set so that a false alarm has probability below 1e-6 per run; predictability beyond repetition and bias is not decided",
	}, func(t *rapid.T, tier Tier) c23Case {
		c := c23Case{Goroutines: rapid.SampledFrom([]int{1, 1, 2, 8, 16}).Draw(t, "g"), Script: rapid.SliceOfN(rapid.IntRange(0, c23Kinds-1), 1, 8).Draw(t, "script")}
		total := rapid.SampledFrom([]int{1000, 4000, 12000}).Draw(t, "total")
		c.Rounds = total / c.Goroutines / len(c.Script)
		if c.Rounds < 1 {
			c.Rounds = 1
		}
		if rapid.IntRange(0, 4).Draw(t, "procs") == 0 {
			c.Procs = 2
		}
		if rapid.IntRange(0, 4).Draw(t, "conf") == 0 {
			c.Conf = rapid.IntRange(1, 4).Draw(t, "nconf")
		}
		return c
	}, c23Exec)
}

type randVal struct {
	kind string
	b    []byte
}

// c23Draw runs the script and returns everything drawn.
func c23Draw(c c23Case) []randVal {
	key := make([]byte, 32)
	cc16 := cryptocore.New(key, cryptocore.BackendGoGCM, 128, true, false)
	cc12 := cryptocore.New(key, cryptocore.BackendGoGCM, 96, true, false)
	ccs := cryptocore.New(key, cryptocore.BackendAESSIV, 128, true, false)
	e16 := contentenc.New(cc16, 4096, false)
	e12 := contentenc.New(cc12, 4096, false)
	es := contentenc.New(ccs, 4096, false)
	plain := []byte("the same plaintext every time")
	outs := make([][]randVal, c.Goroutines)
	var wg sync.WaitGroup
	for g := 0; g < c.Goroutines; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var out []randVal
			// one file per goroutine, written from its beginning, from around
			// 2^32 blocks, or from a far block
			id := contentenc.RandomHeader().Pack()[2:]
			out = append(out, randVal{"fileid", append([]byte{}, id...)})
			first := []uint64{0, 0, 1<<32 - 500, 1 << 50}[(g+c.Rounds)%4]
			for r := 0; r < c.Rounds; r++ {
				no := first + uint64(r)
				for _, k := range c.Script {
					switch k {
					case 0:
						out = append(out, randVal{"nonce128", append([]byte{}, e16.EncryptBlock(plain, no, id)[:16]...)})
					case 1:
						out = append(out, randVal{"nonce96", append([]byte{}, e12.EncryptBlock(plain, no, nil)[:12]...)})
					case 2:
						out = append(out, randVal{"noncesiv", append([]byte{}, es.EncryptBlock(plain, no, id)[:16]...)})
					case 3:
						out = append(out, randVal{"ivgen128", cc16.IVGenerator.Get()})
					case 4:
						out = append(out, randVal{"ivgen96", cc12.IVGenerator.Get()})
					case 5:
						out = append(out, randVal{"fileid", contentenc.RandomHeader().Pack()[2:]})
					case 6:
						out = append(out, randVal{"salt", configfile.NewScryptKDF(10).Salt})
					case 7:
						n := []int{8, 16, 32, 33, 64, 24}[r%6]
						out = append(out, randVal{fmt.Sprint("rand", n), cryptocore.RandBytes(n)})
						u := cryptocore.RandUint64()
						ub := make([]byte, 8)
						for i := range ub {
							ub[i] = byte(u >> (8 * i))
						}
						out = append(out, randVal{"uint64", ub})
					case 8:
						// a run of blocks, sometimes large enough to be split
						n := 3
						if r%16 == 0 {
							n = 33
						}
						var bl [][]byte
						for i := 0; i < n; i++ {
							bl = append(bl, plain)
						}
						ct := e16.EncryptBlocks(bl, no, id)
						w := len(plain) + 32
						for i := 0; i < n; i++ {
							out = append(out, randVal{"nonce128", append([]byte{}, ct[i*w:i*w+16]...)})
						}
					}
				}
			}
			outs[g] = out
		}()
	}
	wg.Wait()
	var all []randVal
	for _, o := range outs {
		all = append(all, o...)
	}
	return all
}

func c23Helper(args []string) int {
	var c c23Case
	fmt.Sscan(args[0], &c.Goroutines)
	fmt.Sscan(args[1], &c.Rounds)
	for _, f := range strings.Split(args[2], ",") {
		k := 0
		fmt.Sscan(f, &k)
		c.Script = append(c.Script, k)
	}
	w := bufio.NewWriter(os.Stdout)
	for _, v := range c23Draw(c) {
		fmt.Fprintf(w, "%s %x\n", v.kind, v.b)
	}
	w.Flush()
	return 0
}

func c23Exec(c c23Case, rec *Rec) error {
	type pr struct {
		out []byte
		err error
	}
	var chans []chan pr
	for i := 0; i < c.Procs; i++ {
		var sc []string
		for _, k := range c.Script {
			sc = append(sc, fmt.Sprint(k))
		}
		cmd := exec.Command("/proc/self/exe", "randhelper", fmt.Sprint(c.Goroutines), fmt.Sprint(c.Rounds), strings.Join(sc, ","))
		ch := make(chan pr, 1)
		chans = append(chans, ch)
		go func() {
			o, err := cmd.Output()
			ch <- pr{o, err}
		}()
	}
	all := c23Draw(c)
	for i, ch := range chans {
		r := <-ch
		if r.err != nil {
			if ee, ok := r.err.(*exec.ExitError); ok && len(ee.Stderr) > 0 {
				return fmt.Errorf("helper process %d failed: %s", i, clip(string(ee.Stderr), 1500))
			}
			return inconclusive("helper: %v", r.err)
		}
		for _, l := range strings.Split(strings.TrimSpace(string(r.out)), "\n") {
			k, h, ok := strings.Cut(l, " ")
			b, err := hex.DecodeString(h)
			if !ok || err != nil {
				return inconclusive("helper output %q", clip(l, 100))
			}
			all = append(all, randVal{k, b})
		}
		rec.Label("process")
	}
	if c.Conf > 0 {
		dir, err := os.MkdirTemp("", "c23")
		if err != nil {
			return inconclusive("%v", err)
		}
		defer os.RemoveAll(dir)
		pw := []byte("pw")
		for i := 0; i < c.Conf; i++ {
			p := filepath.Join(dir, fmt.Sprint("conf", i))
			if err := configfile.Create(p, pw, false, 10, "c23", i%2 == 1, i%3 == 1, nil); err != nil {
				return fmt.Errorf("Create: %v", err)
			}
			key, cf, err := configfile.LoadAndDecrypt(p, pw)
			if err != nil {
				return fmt.Errorf("LoadAndDecrypt: %v", err)
			}
			all = append(all, randVal{"masterkey", key}, randVal{"salt", cf.ScryptObject.Salt}, randVal{"wrapnonce", cf.EncryptedKey[:16]})
			rec.Label("volume created")
		}
	}
	// nothing repeats
	type at struct{ v, off int }
	seen := make(map[[8]byte]at, 9*len(all))
	type stat struct {
		n    int
		freq [][256]int
		diff [][256]int // between two bytes of a value, for every pair
		step [][256]int // from the value drawn before
		prev []byte
	}
	stats := map[string]*stat{}
	for i, v := range all {
		wantLen := map[string]int{"nonce128": 16, "nonce96": 12, "noncesiv": 16, "ivgen128": 16, "ivgen96": 12, "fileid": 16, "salt": 32, "uint64": 8, "masterkey": 32, "wrapnonce": 16}[v.kind]
		if strings.HasPrefix(v.kind, "rand") {
			fmt.Sscanf(v.kind, "rand%d", &wantLen)
		}
		if len(v.b) != wantLen {
			return fmt.Errorf("%s %x has %d bytes, want %d", v.kind, v.b, len(v.b), wantLen)
		}
		for o := 0; o+8 <= len(v.b); o++ {
			var w [8]byte
			copy(w[:], v.b[o:])
			if p, ok := seen[w]; ok {
				return fmt.Errorf("values repeat: %s %x (draw %d of %d, offset %d) and %s %x (draw %d, offset %d) share the bytes %x", v.kind, v.b, i, len(all), o, all[p.v].kind, all[p.v].b, p.v, p.off, w)
			}
			seen[w] = at{i, o}
		}
		s := stats[v.kind]
		if s == nil {
			s = &stat{freq: make([][256]int, len(v.b)), diff: make([][256]int, len(v.b)*len(v.b)), step: make([][256]int, len(v.b))}
			stats[v.kind] = s
		}
		s.n++
		for o := range v.b {
			for q := 0; q < o; q++ {
				s.diff[o*len(v.b)+q][v.b[o]-v.b[q]]++
			}
			if s.prev != nil {
				s.step[o][v.b[o]-s.prev[o]]++
			}
		}
		s.prev = v.b
		for o, x := range v.b {
			s.freq[o][x]++
		}
	}
	for k, s := range stats {
		mean := float64(s.n) / 256
		lim := mean + 12*math.Sqrt(mean) + 12
		for o := range s.freq {
			var ones [8]int
			for x, n := range s.freq[o] {
				for b := range ones {
					ones[b] += n * (x >> b & 1)
				}
				if n == 0 && mean > 45 {
					return fmt.Errorf("%s: byte %d never has the value %#02x in %d values", k, o, x, s.n)
				}
			}
			for b, n := range ones {
				if math.Abs(float64(n)-float64(s.n)/2) > 6*math.Sqrt(float64(s.n))+6 {
					return fmt.Errorf("%s: bit %d of byte %d is set in %d of %d values", k, b, o, n, s.n)
				}
			}
			for x, n := range s.freq[o] {
				if float64(n) > lim {
					return fmt.Errorf("%s: byte %d has the value %#02x in %d of %d values", k, o, x, n, s.n)
				}
			}
			for x, n := range s.step[o] {
				if float64(n) > lim {
					return fmt.Errorf("%s: byte %d is that of the value drawn before plus %#02x in %d of %d values", k, o, x, n, s.n)
				}
			}
		}
		for p := range s.diff {
			for x, n := range s.diff[p] {
				if float64(n) > lim {
					return fmt.Errorf("%s: byte %d is byte %d plus %#02x in %d of %d values", k, p/len(s.freq), p%len(s.freq), x, n, s.n)
				}
			}
		}
	}
	if len(all) >= 1000 {
		rec.NonTrivial()
	}
	return nil
}
