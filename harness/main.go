// Command harness decides the properties of /verif/properties.jsonl by
// generated-input search (pgregory.net/rapid) against explicit oracles.
//
// Roles of this one binary:
//
//	harness run    -prop C01 -tier quick   driver: starts shards, merges, writes evidence, prints VIOLATION
//	harness shard  ...                     draws cases with rapid, sends each to a child, shrinks failures
//	harness child  -prop C01               executes cases against the code under test (may crash; the shard survives)
//	harness replay FILE                    re-executes one saved case
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Tier is "quick" or "thorough".
type Tier string

// Result is what a child reports for one case.
type Result struct {
	Err          string         `json:"err,omitempty"`          // property broken
	Inconclusive string         `json:"inconclusive,omitempty"` // the harness could not decide
	NonTrivial   bool           `json:"nt"`
	Labels       map[string]int `json:"labels,omitempty"`
}

// Rec lets an executor classify the case it ran.
type Rec struct {
	mu sync.Mutex
	r  Result
}

// Label counts an observed feature of the case.
func (r *Rec) Label(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.r.Labels == nil {
		r.r.Labels = map[string]int{}
	}
	r.r.Labels[s]++
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (r *Rec) NonTrivial() {
	r.mu.Lock()
	r.r.NonTrivial = true
	r.mu.Unlock()
}

type inconclusiveError struct{ msg string }

func (e inconclusiveError) Error() string { return e.msg }

func inconclusive(f string, a ...any) error { return inconclusiveError{fmt.Sprintf(f, a...)} }

// Prop is a registered property check.
type Prop struct {
	ID          string
	Rule        string
	Quick       int // total cases over all shards
	Thorough    int
	Shards      int
	Race        bool
	CaseTimeout time.Duration
	ShrinkTime  time.Duration
	Setup       string                             // assumptions, free text for the evidence
	Recycle     int                                // cases per child process (0 = 150)
	Fixed       func(tier Tier, seed uint64) []any // cases that every run executes before the drawn ones
	NetNS       bool                               // each child has its own network (the program listens on a fixed port)
	gen         func(t *rapid.T, tier Tier) any
	exec        func(js []byte, rec *Rec) error
	// onDeath decides a case in which the child process ended (os.Exit in the
	// code under test). nil error = accepted outcome.
	onDeath func(js []byte, exit int, stderr string) (error, bool)
}

var props = map[string]*Prop{}

func reg[C any](p Prop, gen func(t *rapid.T, tier Tier) C, exec func(c C, rec *Rec) error) *Prop {
	pp := &p
	if pp.Shards == 0 {
		pp.Shards = 8
	}
	if pp.Recycle == 0 {
		pp.Recycle = 150
	}
	if pp.CaseTimeout == 0 {
		pp.CaseTimeout = 90 * time.Second
	}
	if pp.ShrinkTime == 0 {
		pp.ShrinkTime = 12 * time.Second
	}
	pp.gen = func(t *rapid.T, tier Tier) any { return gen(t, tier) }
	pp.exec = func(js []byte, rec *Rec) error {
		var c C
		if err := json.Unmarshal(js, &c); err != nil {
			return inconclusive("bad case: %v", err)
		}
		return exec(c, rec)
	}
	if props[p.ID] != nil {
		panic("duplicate " + p.ID)
	}
	props[p.ID] = pp
	return pp
}

// modes are helper processes of single properties.
var modes = map[string]func(args []string) int{}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run|shard|child|replay")
		os.Exit(2)
	}
	mode := os.Args[1]
	switch mode {
	case "run":
		os.Exit(runMain(os.Args[2:]))
	case "shard":
		os.Exit(shardMain(os.Args[2:]))
	case "child":
		childMain(os.Args[2:])
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "list":
		var ids []string
		for id, p := range props {
			ids = append(ids, fmt.Sprintf("%s race=%v", id, p.Race))
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	default:
		if f := modes[mode]; f != nil {
			os.Exit(f(os.Args[2:]))
		}
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(2)
	}
}

// ---------------------------------------------------------------- child

func execGuard(p *Prop, js []byte) (res Result) {
	rec := &Rec{}
	defer func() {
		if r := recover(); r != nil {
			rec.mu.Lock()
			res = rec.r
			rec.mu.Unlock()
			res.Err = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	err := p.exec(js, rec)
	rec.mu.Lock()
	res = rec.r
	rec.mu.Unlock()
	if err != nil {
		if _, ok := err.(inconclusiveError); ok {
			res.Inconclusive = err.Error()
		} else {
			res.Err = err.Error()
		}
	}
	return res
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

// childMain reads cases (one JSON per line) from fd 3 and answers on fd 4, so
// that whatever the code under test does to stdin/stdout/stderr is harmless.
func childMain(args []string) {
	p := props[args[0]]
	if p == nil {
		os.Exit(99)
	}
	if p.NetNS {
		netSetup()
	}
	if !p.Race {
		go memoryGuard()
	}
	in := bufio.NewReaderSize(os.NewFile(3, "cases"), 1<<20)
	out := os.NewFile(4, "results")
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		res := execGuard(p, bytes.TrimSpace(line))
		b, _ := json.Marshal(res)
		if _, err := out.Write(append(b, '\n')); err != nil {
			os.Exit(0)
		}
	}
}

// memoryGuard ends a process that allocates without bound before the machine
// runs out of memory; no case needs nearly as much.
func memoryGuard() {
	const limit = 3 << 30
	for {
		time.Sleep(20 * time.Millisecond)
		b, err := os.ReadFile("/proc/self/statm")
		if err != nil {
			return
		}
		f := strings.Fields(string(b))
		if len(f) < 2 {
			return
		}
		if n, _ := strconv.ParseInt(f[1], 10, 64); n*int64(os.Getpagesize()) > limit {
			fmt.Fprintf(os.Stderr, "fatal error: the code under test allocated more than %d MB in one case\n", limit>>20)
			os.Exit(3)
		}
	}
}

type child struct {
	cmd    *exec.Cmd
	w      *os.File
	r      *bufio.Reader
	rf     *os.File
	stderr *tailBuf
	dir    string
	exited chan struct{}
	state  *os.ProcessState
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 64<<10 {
		// keep the beginning of a panic message: it is what identifies it
		if i := bytes.Index(t.b, []byte("panic: ")); i > 0 {
			t.b = t.b[i:]
		} else if i := bytes.Index(t.b, []byte("fatal error: ")); i > 0 {
			t.b = t.b[i:]
		} else if i := bytes.Index(t.b, []byte("WARNING: DATA RACE")); i > 0 {
			t.b = t.b[i:]
		}
		if len(t.b) > 64<<10 && !bytes.HasPrefix(t.b, []byte("panic: ")) && !bytes.HasPrefix(t.b, []byte("fatal error: ")) && !bytes.HasPrefix(t.b, []byte("WARNING: DATA RACE")) {
			t.b = append([]byte{}, t.b[len(t.b)-(8<<10):]...)
		} else if len(t.b) > 128<<10 {
			t.b = t.b[:64<<10]
		}
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func startChild(p *Prop) (*child, error) {
	dir, err := os.MkdirTemp("", "vh-child-")
	if err != nil {
		return nil, err
	}
	cr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	pr, cw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command("/proc/self/exe", "child", p.ID)
	cmd.ExtraFiles = []*os.File{cr, cw}
	cmd.Env = append(os.Environ(), "TMPDIR="+dir, "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	c := &child{cmd: cmd, w: pw, r: bufio.NewReaderSize(pr, 1<<20), rf: pr, stderr: &tailBuf{}, dir: dir, exited: make(chan struct{})}
	cmd.Stderr = c.stderr
	cmd.Stdout = nil
	cmd.WaitDelay = 5 * time.Second
	if p.NetNS {
		cmd.SysProcAttr.Cloneflags = syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET
		cmd.SysProcAttr.UidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}}
		cmd.SysProcAttr.GidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}
		cmd.Env = append(cmd.Env, "VH_NETNS=1")
	}
	err = cmd.Start()
	if err != nil && p.NetNS {
		// no private network here: the children take turns on the port
		c2 := exec.Command("/proc/self/exe", "child", p.ID)
		c2.ExtraFiles, c2.Stderr, c2.WaitDelay = cmd.ExtraFiles, cmd.Stderr, cmd.WaitDelay
		c2.Env = append(cmd.Env, "VH_NETNS=0")
		c2.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		cmd = c2
		c.cmd = c2
		err = cmd.Start()
	}
	if err != nil {
		return nil, err
	}
	cr.Close()
	cw.Close()
	go func() {
		_ = cmd.Wait()
		c.state = cmd.ProcessState
		close(c.exited)
	}()
	return c, nil
}

func (c *child) kill() {
	_ = syscall.Kill(-c.cmd.Process.Pid, syscall.SIGKILL)
	<-c.exited
	c.w.Close()
	c.rf.Close()
	os.RemoveAll(c.dir)
}

type runner struct {
	p *Prop
	c *child
	n int
}

// run executes one case in the child and turns every way of ending into a Result.
func (rn *runner) run(js []byte) Result {
	res, hung := rn.run1(js)
	if hung {
		// Slowness is not a verdict: only a hang that repeats in a fresh
		// process counts.
		res2, hung2 := rn.run1(js)
		if hung2 {
			return Result{Err: fmt.Sprintf("the case did not finish within %v, twice, in two fresh processes: a request never returned", rn.p.CaseTimeout), NonTrivial: true}
		}
		return res2
	}
	return res
}

func (rn *runner) run1(js []byte) (Result, bool) {
	if rn.c != nil && rn.n >= rn.p.Recycle {
		rn.c.kill()
		rn.c = nil
	}
	rn.n++
	if rn.c == nil {
		rn.n = 1
		c, err := startChild(rn.p)
		if err != nil {
			return Result{Inconclusive: "cannot start child: " + err.Error()}, false
		}
		rn.c = c
	}
	c := rn.c
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	go func() {
		_, werr := c.w.Write(append(append([]byte{}, js...), '\n'))
		if werr != nil {
			ch <- ans{nil, werr}
			return
		}
		line, err := c.r.ReadBytes('\n')
		ch <- ans{line, err}
	}()
	select {
	case a := <-ch:
		if a.err == nil {
			var res Result
			if err := json.Unmarshal(a.line, &res); err != nil {
				return Result{Inconclusive: "bad answer: " + err.Error()}, false
			}
			return res, false
		}
		// the child died
		select {
		case <-c.exited:
		case <-time.After(10 * time.Second):
		}
		stderr := c.stderr.String()
		c.kill()
		rn.c = nil
		return rn.death(js, c.state, stderr), false
	case <-time.After(rn.p.CaseTimeout):
		// ask for a goroutine dump, then kill
		_ = syscall.Kill(c.cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case <-c.exited:
		case <-time.After(3 * time.Second):
		}
		if os.Getenv("VH_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "HANG:", c.stderr.String())
		}
		c.kill()
		rn.c = nil
		return Result{}, true
	}
}

func (rn *runner) death(js []byte, st *os.ProcessState, stderr string) Result {
	code, sig := -1, syscall.Signal(0)
	if st != nil {
		code = st.ExitCode()
		if ws, ok := st.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			sig = ws.Signal()
		}
	}
	if rn.p.onDeath != nil {
		if err, ok := rn.p.onDeath(js, code, stderr); ok {
			if err == nil {
				return Result{NonTrivial: true, Labels: map[string]int{"process-refused": 1}}
			}
			return Result{Err: err.Error(), NonTrivial: true}
		}
	}
	switch {
	case sig == syscall.SIGKILL:
		return Result{Inconclusive: "child was killed (out of memory?)"}
	case strings.Contains(stderr, "out of memory") || strings.Contains(stderr, "cannot allocate memory") || strings.Contains(stderr, "resource temporarily unavailable") || strings.Contains(stderr, "too many open files"):
		return Result{Inconclusive: "child ran out of resources: " + firstPanic(stderr)}
	case code == 66 || strings.Contains(stderr, "WARNING: DATA RACE"):
		return Result{Err: "data race detected:\n" + firstPanic(stderr), NonTrivial: true}
	case strings.Contains(stderr, "panic: ") || strings.Contains(stderr, "fatal error: "):
		return Result{Err: "the process crashed:\n" + firstPanic(stderr), NonTrivial: true}
	case code == 99:
		return Result{Inconclusive: "child exit 99"}
	default:
		return Result{Err: fmt.Sprintf("the process ended (exit code %d, signal %v): %s", code, sig, firstPanic(stderr)), NonTrivial: true}
	}
}

func firstPanic(s string) string {
	for _, k := range []string{"panic: ", "fatal error: ", "WARNING: DATA RACE"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			break
		}
	}
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

// ---------------------------------------------------------------- shard

type failure struct {
	Case json.RawMessage `json:"case"`
	Err  string          `json:"err"`
}

type shardOut struct {
	Evals        int            `json:"evals"`
	Hashes       []uint64       `json:"hashes"`
	Labels       map[string]int `json:"labels"`
	Samples      []any          `json:"samples"`
	Fail         *failure       `json:"fail,omitempty"`
	FailCount    int            `json:"fail_count"`
	Inconclusive []string       `json:"inconclusive,omitempty"`
	Skipped      int            `json:"skipped"`
	GenError     string         `json:"gen_error,omitempty"`
}

type fakeTB struct {
	failed bool
	log    []string
}

type tbStop struct{}

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return "harness" }
func (f *fakeTB) Logf(s string, a ...any)   { f.log = append(f.log, fmt.Sprintf(s, a...)) }
func (f *fakeTB) Log(a ...any)              { f.log = append(f.log, fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(s string, a ...any)  { panic(tbStop{}) }
func (f *fakeTB) Skip(a ...any)             { panic(tbStop{}) }
func (f *fakeTB) SkipNow()                  { panic(tbStop{}) }
func (f *fakeTB) Errorf(s string, a ...any) { f.Logf(s, a...); f.failed = true }
func (f *fakeTB) Error(a ...any)            { f.Log(a...); f.failed = true }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Logf(s, a...); f.failed = true; panic(tbStop{}) }
func (f *fakeTB) Fatal(a ...any)            { f.Log(a...); f.failed = true; panic(tbStop{}) }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(tbStop{}) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

func shardMain(args []string) int {
	fs := flag.NewFlagSet("shard", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	checks := fs.Int("checks", 100, "")
	budget := fs.Duration("budget", 10*time.Minute, "")
	vseed := fs.Uint64("vseed", 1, "")
	shard := fs.Int("shard", 0, "")
	_ = fs.Parse(args)
	p := props[*id]

	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	_ = flag.Set("rapid.checks", strconv.Itoa(*checks))
	_ = flag.Set("rapid.seed", strconv.FormatUint(*seed, 10))
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", p.ShrinkTime.String())

	out := shardOut{Labels: map[string]int{}}
	rn := &runner{p: p}
	start := time.Now()
	seen := map[uint64]bool{}
	var firstErrAt time.Time
	var fixed []any
	if p.Fixed != nil {
		for i, c := range p.Fixed(Tier(*tier), *vseed) {
			if i%p.Shards == *shard {
				fixed = append(fixed, c)
			}
		}
	}
	for _, c := range fixed {
		js, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		res := rn.run(js)
		out.Evals++
		out.Labels["fixed case"]++
		for k, v := range res.Labels {
			out.Labels[k] += v
		}
		if res.Inconclusive != "" {
			out.Inconclusive = append(out.Inconclusive, res.Inconclusive+"; case: "+clip(string(js), 3000))
			continue
		}
		if res.NonTrivial {
			h := fnv.New64a()
			h.Write(js)
			seen[h.Sum64()] = true
		}
		if res.Err != "" {
			out.FailCount++
			out.Fail = &failure{Case: js, Err: res.Err}
			break
		}
	}
	tb := &fakeTB{}
	done := make(chan struct{})
	go func() { // rapid may call runtime.Goexit-like panics; isolate it
		defer close(done)
		if out.Fail != nil {
			return
		}
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					out.GenError = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			c := p.gen(t, Tier(*tier))
			if time.Since(start) > *budget || len(out.Inconclusive) > 3 {
				out.Skipped++
				return
			}
			if !firstErrAt.IsZero() && time.Since(firstErrAt) > 2*p.ShrinkTime+2*time.Second {
				// shrinking took long enough; let rapid wind down quickly
				return
			}
			js, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			res := rn.run(js)
			if firstErrAt.IsZero() {
				out.Evals++
				for k, v := range res.Labels {
					out.Labels[k] += v
				}
			}
			if res.Inconclusive != "" {
				out.Inconclusive = append(out.Inconclusive, res.Inconclusive+"; case: "+clip(string(js), 3000))
				return
			}
			h := fnv.New64a()
			h.Write(js)
			if res.NonTrivial && !seen[h.Sum64()] && firstErrAt.IsZero() {
				seen[h.Sum64()] = true
				if len(out.Samples) < 2 && len(js) < 6000 {
					out.Samples = append(out.Samples, json.RawMessage(js))
				}
			}
			if res.Err != "" {
				out.FailCount++
				if firstErrAt.IsZero() {
					firstErrAt = time.Now()
				}
				if out.Fail == nil || len(js) <= len(out.Fail.Case) {
					out.Fail = &failure{Case: js, Err: res.Err}
				}
				t.Fatalf("property violated")
			}
		})
	}()
	<-done
	if rn.c != nil {
		rn.c.kill()
	}
	for h := range seen {
		out.Hashes = append(out.Hashes, h)
	}
	if tb.failed && out.Fail == nil && out.GenError == "" {
		out.GenError = strings.Join(tb.log, "\n")
	}
	b, _ := json.Marshal(out)
	_, _ = os.Stdout.Write(b)
	return 0
}

// ---------------------------------------------------------------- driver

func runMain(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	evid := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "")
	known := fs.String("known", "", "")
	checksOverride := fs.Int("checks", 0, "")
	budget := fs.Duration("budget", 0, "")
	_ = fs.Parse(args)
	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *id)
		return 2
	}
	total := p.Quick
	bud := 5 * time.Minute
	if *tier == "thorough" {
		total = p.Thorough
		bud = 12 * time.Minute
	}
	if *checksOverride > 0 {
		total = *checksOverride
	}
	if *budget > 0 {
		bud = *budget
	}
	per := (total + p.Shards - 1) / p.Shards
	start := time.Now()

	type so struct {
		out shardOut
		err error
	}
	results := make(chan so, p.Shards)
	var mu sync.Mutex
	var cmds []*exec.Cmd
	for i := 0; i < p.Shards; i++ {
		// never 0: rapid takes 0 as "random"
		sd := (*seed+1)*1000003 + uint64(i)*15485863
		if sd == 0 {
			sd = 7
		}
		cmd := exec.Command("/proc/self/exe", "shard", "-prop", *id, "-tier", *tier,
			"-seed", strconv.FormatUint(sd, 10), "-checks", strconv.Itoa(per), "-budget", bud.String(), "-vseed", strconv.FormatUint(*seed, 10), "-shard", strconv.Itoa(i))
		cmd.Env = os.Environ()
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var ob bytes.Buffer
		cmd.Stdout = &ob
		cmd.Stderr = os.Stderr
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, "cannot start shard:", err)
			return 2
		}
		mu.Lock()
		cmds = append(cmds, cmd)
		mu.Unlock()
		go func() {
			err := cmd.Wait()
			var o shardOut
			if err == nil {
				err = json.Unmarshal(ob.Bytes(), &o)
			}
			results <- so{o, err}
		}()
	}
	merged := shardOut{Labels: map[string]int{}}
	hashes := map[uint64]bool{}
	var shardErr error
	stopping := false
	for i := 0; i < p.Shards; i++ {
		r := <-results
		if r.err != nil {
			if !stopping {
				shardErr = r.err
			}
			continue
		}
		o := r.out
		merged.Evals += o.Evals
		merged.Skipped += o.Skipped
		for _, h := range o.Hashes {
			hashes[h] = true
		}
		for k, v := range o.Labels {
			merged.Labels[k] += v
		}
		if len(merged.Samples) < 4 {
			merged.Samples = append(merged.Samples, o.Samples...)
		}
		merged.Inconclusive = append(merged.Inconclusive, o.Inconclusive...)
		if o.GenError != "" && merged.GenError == "" {
			merged.GenError = o.GenError
		}
		if o.Fail != nil {
			if merged.Fail == nil || len(o.Fail.Case) < len(merged.Fail.Case) {
				merged.Fail = o.Fail
			}
			if !stopping {
				stopping = true
				// the verdict is known; give the other shards a moment, then stop them
				go func() {
					time.Sleep(p.ShrinkTime + 4*time.Second)
					for _, c := range cmds {
						_ = c.Process.Kill()
					}
				}()
			}
		}
	}
	wall := time.Since(start).Seconds()
	viol := 0
	knownHit := false
	if merged.Fail != nil {
		if knownFinding(*known, *id, merged.Fail.Err) {
			knownHit = true
		} else {
			viol = 1
		}
	}
	if *evid != "" {
		writeEvidence(*evid, p, *tier, *seed, merged, len(hashes), wall, viol)
	}
	if viol > 0 {
		_ = os.MkdirAll(*replays, 0o755)
		h := fnv.New64a()
		h.Write(merged.Fail.Case)
		path := filepath.Join(*replays, fmt.Sprintf("%s-%016x.json", *id, h.Sum64()))
		b, _ := json.MarshalIndent(map[string]any{"property": *id, "case": merged.Fail.Case, "error": merged.Fail.Err, "race": p.Race}, "", " ")
		_ = os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Println("--- failing case (shrunk):", clip(string(merged.Fail.Case), 3000))
		fmt.Println("--- why:", printable(clip(merged.Fail.Err, 4000)))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, path)
		return 1
	}
	if knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, clip(strings.SplitN(merged.Fail.Err, "\n", 2)[0], 300))
	}
	if shardErr != nil || merged.GenError != "" {
		fmt.Fprintln(os.Stderr, "harness error:", shardErr, merged.GenError)
		return 2
	}
	if len(merged.Inconclusive) > 0 {
		fmt.Fprintln(os.Stderr, "inconclusive:", merged.Inconclusive[0])
		return 3
	}
	if merged.Evals == 0 {
		fmt.Fprintln(os.Stderr, "no case was executed")
		return 3
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d skipped=%d wall=%.1fs\n", *id, *tier, *seed, merged.Evals, len(hashes), merged.Skipped, wall)
	var ks []string
	for k := range merged.Labels {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  %-40s %d\n", k, merged.Labels[k])
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// printable keeps a message plain text: control bytes and invalid UTF-8 are
// escaped.
func printable(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == '\n' || r == '\t' || (r >= ' ' && r != 0x7f && r != 0xfffd) {
			b.WriteRune(r)
		} else {
			b.WriteString(strings.Trim(strconv.QuoteRune(r), "'"))
		}
	}
	return b.String()
}

// knownFinding reports whether a violation is listed in the known-findings
// file: lines "finding: property=<id> match=<substring of the error>".
func knownFinding(path, id, err string) bool {
	b, e := os.ReadFile(path)
	if e != nil {
		return false
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		pre := "finding: property=" + id + " match="
		if strings.HasPrefix(l, pre) && strings.Contains(err, strings.TrimPrefix(l, pre)) {
			return true
		}
	}
	return false
}

func writeEvidence(path string, p *Prop, tier string, seed uint64, o shardOut, nt int, wall float64, viol int) {
	samples := o.Samples
	if samples == nil {
		samples = []any{}
	}
	if len(samples) > 4 {
		samples = samples[:4]
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         o.Evals,
			"distinct_nontrivial": nt,
			"rule":                p.Rule,
			"samples":             samples,
			"labels":              o.Labels,
			"skipped_over_budget": o.Skipped,
			"shards":              p.Shards,
			"race_detector":       p.Race,
		},
		"assumptions": []string{p.Setup},
		"wall_s":      wall,
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}

func replayMain(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Property string          `json:"property"`
		Case     json.RawMessage `json:"case"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[f.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", f.Property)
		return 2
	}
	var cb bytes.Buffer
	_ = json.Compact(&cb, f.Case)
	rn := &runner{p: p}
	res := rn.run(cb.Bytes())
	if rn.c != nil {
		rn.c.kill()
	}
	switch {
	case res.Err != "":
		fmt.Println("why:", printable(res.Err))
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, args[0])
		return 1
	case res.Inconclusive != "":
		fmt.Fprintln(os.Stderr, "inconclusive:", res.Inconclusive)
		return 3
	}
	fmt.Printf("OK property=%s (case holds)\n", f.Property)
	return 0
}
