// Package core is the exploration engine: it enumerates cases exhaustively, runs them in parallel in a
// worker process, watches for panics, hangs, memory blow-up and fatal errors, counts states, transitions and
// validated traces, and reports violations with a replay file.
package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is one registered property check.
type Check struct {
	ID          string
	Run         func(e *Env)
	Assumptions []string
	Rule        string
	Workers     int           // 0: number of CPUs
	CaseLimit   time.Duration // 0: 60 s
	MemLimit    uint64        // heap limit per worker process in bytes, 0: 10 GiB
}

// Checks holds all registered checks.
var Checks = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { Checks[c.ID] = c }

const nShard = 64

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

// Env is the environment of one exploration.
type Env struct {
	C        *Check
	Thorough bool
	Only     string
	deadline time.Time
	jobs     chan job
	wg       sync.WaitGroup
	shards   [nShard]shard
	seed     maphash.Seed
	cases    int64
	trans    int64
	traces   int64
	skipped  int64
	stop     int32
	mu       sync.Mutex
	viol     []Violation
	violSig  map[string]int
	samples  []string
	counters map[string]int64
	slots    *os.File
	slotT    []int64 // start time of the running case per slot in ns, 0 idle
	slotN    []atomic.Value
	slotS    []atomic.Value // step
	known    map[string]string
	knownHit map[string]string
	out      *json.Encoder
	outMu    sync.Mutex
}

type job struct {
	name string
	fn   func(t *T)
}

// Violation is a failed case.
type Violation struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Sig      string `json:"sig"`
	Msg      string `json:"msg"`
	Tier     string `json:"tier"`
}

// T is the context of one case.
type T struct {
	E      *Env
	Name   string
	trans  int64
	traces int64
	hashes []uint64
	failed map[string]bool
	slot   int
}

// Step names the current step of a long case and restarts its time limit.
func (t *T) Step(name string) {
	t.E.slotS[t.slot].Store(name)
	atomic.StoreInt64(&t.E.slotT[t.slot], time.Now().UnixNano())
}

// Try runs a step of a case; a panic in it is reported and does not end the case.
func (t *T) Try(step string, fn func()) {
	t.Step(step)
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			t.Fail("panic: "+panicSite(st), "%s: panic: %v\n%s", step, r, trimStack(st))
		}
	}()
	fn()
}

const slotSize = 1024

// Case submits a case.
func (e *Env) Case(name string, fn func(t *T)) {
	if e.Only != "" && e.Only != name {
		return
	}
	if atomic.LoadInt32(&e.stop) != 0 {
		return
	}
	if time.Now().After(e.deadline) {
		atomic.AddInt64(&e.skipped, 1)
		return
	}
	e.wg.Add(1)
	e.jobs <- job{name, fn}
}

// Wait waits for all cases submitted so far.
func (e *Env) Wait() { e.wg.Wait() }

// Expired tells whether the time budget is used up.
func (e *Env) Expired() bool { return time.Now().After(e.deadline) }

// Cut tells that a case was not explored completely for lack of time.
func (e *Env) Cut() { atomic.AddInt64(&e.skipped, 1) }

// Count adds to a named counter of the evidence.
func (e *Env) Count(name string, n int64) {
	e.mu.Lock()
	e.counters[name] += n
	e.mu.Unlock()
}

// Trans counts executed operations.
func (t *T) Trans(n int) { t.trans += int64(n) }

// Trace counts one complete model trace compared with the implementation.
func (t *T) Trace() { t.traces++ }

// State records an abstract state by its canonical encoding.
func (t *T) State(s string) { t.hashes = append(t.hashes, maphash.String(t.E.seed, s)) }

// StateB records an abstract state.
func (t *T) StateB(b []byte) { t.hashes = append(t.hashes, maphash.Bytes(t.E.seed, b)) }

// Sample offers a sample for the evidence.
func (t *T) Sample(s string) {
	e := t.E
	e.mu.Lock()
	if len(e.samples) < 12 {
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		e.samples = append(e.samples, t.Name+": "+s)
	}
	e.mu.Unlock()
}

// Fail records a violation; sig classifies it.
func (t *T) Fail(sig, format string, a ...any) {
	if t.failed[sig] {
		return
	}
	if t.failed == nil {
		t.failed = map[string]bool{}
	}
	t.failed[sig] = true
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 3000 {
		msg = msg[:3000] + "..."
	}
	t.E.report(Violation{t.E.C.ID, t.Name, sig, msg, ""})
}

type record struct {
	Kind  string     `json:"kind"`
	V     *Violation `json:"v,omitempty"`
	Known string     `json:"known,omitempty"`
	Stats *Stats     `json:"stats,omitempty"`
}

// Stats is the result of a worker.
type Stats struct {
	States, Trans, Traces, Cases, Skipped int64
	Samples                               []string
	Counters                              map[string]int64
	Exhaustive                            bool
}

func knownKey(c, sig string) string { return c + "\x00" + sig }

func (e *Env) report(v Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if d, ok := e.known[knownKey(v.Case, v.Sig)]; ok {
		if _, seen := e.knownHit[knownKey(v.Case, v.Sig)]; !seen {
			e.knownHit[knownKey(v.Case, v.Sig)] = d
			e.emit(record{Kind: "known", V: &v, Known: d})
		}
		return
	}
	e.violSig[v.Sig]++
	if e.violSig[v.Sig] > 5 {
		if e.violSig[v.Sig] > 2000 {
			atomic.StoreInt32(&e.stop, 1)
		}
		return
	}
	e.viol = append(e.viol, v)
	e.emit(record{Kind: "viol", V: &v})
	if len(e.viol) >= 60 {
		atomic.StoreInt32(&e.stop, 1)
	}
}

func (e *Env) emit(r record) {
	e.outMu.Lock()
	e.out.Encode(r)
	e.outMu.Unlock()
}

func (e *Env) runJob(slot int, j job) {
	var buf [slotSize]byte
	n := copy(buf[:], j.name)
	buf[min(n, slotSize-1)] = 0
	e.slots.WriteAt(buf[:min(n+1, slotSize)], int64(slot*slotSize))
	e.slotN[slot].Store(j.name)
	e.slotS[slot].Store("")
	atomic.StoreInt64(&e.slotT[slot], time.Now().UnixNano())
	t := &T{E: e, Name: j.name, slot: slot}
	start := time.Now()
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				t.Fail("panic: "+panicSite(st), "panic: %v\n%s", r, trimStack(st))
			}
		}()
		j.fn(t)
	}()
	if d := os.Getenv("MC_SLOW"); d != "" {
		if lim, err := time.ParseDuration(d); err == nil && time.Since(start) > lim {
			if f, err := os.OpenFile(os.Getenv("MC_SLOW_FILE"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
				fmt.Fprintf(f, "%v %s\n", time.Since(start).Round(time.Millisecond), j.name)
				f.Close()
			}
		}
	}
	atomic.StoreInt64(&e.slotT[slot], 0)
	atomic.AddInt64(&e.cases, 1)
	atomic.AddInt64(&e.trans, t.trans)
	atomic.AddInt64(&e.traces, t.traces)
	for _, h := range t.hashes {
		s := &e.shards[h%nShard]
		s.mu.Lock()
		s.m[h] = struct{}{}
		s.mu.Unlock()
	}
	e.wg.Done()
}

// running returns the stacks of the goroutines that are in the library.
func running(st []byte) string {
	var out []string
	for _, g := range strings.Split(string(st), "\n\n") {
		if strings.Contains(g, "tdewolff/font.") {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

// panicSite names the function of the library in which a panic arose.
func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	after := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			after = true
			continue
		}
		if after && strings.Contains(l, "tdewolff/font.") {
			l = l[strings.Index(l, "tdewolff/font.")+len("tdewolff/font."):]
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "harness"
}

// PanicSite exposes panicSite for checks that recover themselves.
func PanicSite() string { return panicSite(string(debug.Stack())) }

func trimStack(st string) string {
	i := strings.Index(st, "panic(")
	if i > 0 {
		st = st[i:]
	}
	if len(st) > 1500 {
		st = st[:1500]
	}
	return st
}

func worker(c *Check, tier, only, slotPath string, budget time.Duration, knownPath string) {
	e := &Env{C: c, Thorough: tier == "thorough", Only: only, deadline: time.Now().Add(budget), jobs: make(chan job, 64),
		seed: maphash.MakeSeed(), violSig: map[string]int{}, counters: map[string]int64{}, knownHit: map[string]string{}, out: json.NewEncoder(os.Stdout)}
	e.known = loadKnown(knownPath, c.ID)
	for i := range e.shards {
		e.shards[i].m = map[uint64]struct{}{}
	}
	n := c.Workers
	if n == 0 {
		n = runtime.NumCPU()
	}
	e.slotT = make([]int64, n)
	e.slotN = make([]atomic.Value, n)
	e.slotS = make([]atomic.Value, n)
	f, err := os.OpenFile(slotPath, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		panic(err)
	}
	e.slots = f
	f.WriteAt(make([]byte, n*slotSize), 0)
	debug.SetMaxStack(256 << 20)
	limit := c.CaseLimit
	if limit == 0 {
		limit = 150 * time.Second
	}
	mem := c.MemLimit
	if mem == 0 {
		mem = 10 << 30
	}
	go func() {
		var ms runtime.MemStats
		for k := 0; ; k++ {
			time.Sleep(200 * time.Millisecond)
			now := time.Now().UnixNano()
			for s := range e.slotT {
				if st := atomic.LoadInt64(&e.slotT[s]); st != 0 && time.Duration(now-st) > limit {
					name, _ := e.slotN[s].Load().(string)
					step, _ := e.slotS[s].Load().(string)
					buf0 := make([]byte, 1<<20)
					fmt.Fprintf(os.Stderr, "fatal error: no end after %v in %s, step %s\n%s\n", limit, name, step, running(buf0[:runtime.Stack(buf0, true)]))
					f.WriteAt([]byte("HANG\x00"), int64(n*slotSize))
					buf := make([]byte, slotSize)
					copy(buf, name)
					f.WriteAt(buf, int64((n+1)*slotSize))
					os.Exit(97)
				}
			}
			if k%5 == 0 {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > mem {
					var steps []string
					for s := range e.slotT {
						if atomic.LoadInt64(&e.slotT[s]) != 0 {
							name, _ := e.slotN[s].Load().(string)
							step, _ := e.slotS[s].Load().(string)
							steps = append(steps, name+": "+step)
						}
					}
					fmt.Fprintf(os.Stderr, "fatal error: memory limit: %d bytes in use, running steps:\n%s\n", ms.HeapAlloc, strings.Join(steps, "\n"))
					os.Exit(98)
				}
			}
		}
	}()
	for s := 0; s < n; s++ {
		go func(s int) {
			for j := range e.jobs {
				e.runJob(s, j)
			}
		}(s)
	}
	c.Run(e)
	e.wg.Wait()
	st := &Stats{Trans: e.trans, Traces: e.traces, Cases: e.cases, Skipped: e.skipped, Samples: e.samples, Counters: e.counters}
	for i := range e.shards {
		st.States += int64(len(e.shards[i].m))
	}
	st.Exhaustive = e.skipped == 0 && atomic.LoadInt32(&e.stop) == 0
	e.emit(record{Kind: "stats", Stats: st})
	os.Exit(0)
}

type knownEntry struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Case     string `json:"case"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

func loadKnown(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k knownEntry
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == id && k.Status == "known" {
			m[knownKey(k.Case, k.Sig)] = k.What
		}
	}
	return m
}

type runResult struct {
	viol   []Violation
	known  []record
	stats  *Stats
	code   int
	stderr string
	slots  []string
	hang   string
}

func runWorker(self string, c *Check, tier, only string, budget time.Duration, known, tmp string, hard time.Duration) runResult {
	slot := filepath.Join(tmp, "slots-"+strconv.FormatInt(time.Now().UnixNano(), 36))
	args := []string{"-worker", "-tier", tier, "-slots", slot, "-budget", budget.String(), "-known", known}
	if only != "" {
		args = append(args, "-only", only)
	}
	args = append(args, c.ID)
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var errb tailBuf
	cmd.Stderr = &errb
	out, _ := cmd.StdoutPipe()
	var res runResult
	if err := cmd.Start(); err != nil {
		res.code = -1
		res.stderr = err.Error()
		return res
	}
	timer := time.AfterFunc(hard, func() { cmd.Process.Kill() })
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var r record
		if json.Unmarshal(sc.Bytes(), &r) != nil {
			continue
		}
		switch r.Kind {
		case "viol":
			res.viol = append(res.viol, *r.V)
		case "known":
			res.known = append(res.known, r)
		case "stats":
			res.stats = r.Stats
		}
	}
	err := cmd.Wait()
	timer.Stop()
	if err != nil {
		res.code = 1
		if x, ok := err.(*exec.ExitError); ok {
			res.code = x.ExitCode()
		}
	}
	res.stderr = errb.String()
	if b, err := os.ReadFile(slot); err == nil {
		n := c.Workers
		if n == 0 {
			n = runtime.NumCPU()
		}
		get := func(k int) string {
			if len(b) < (k+1)*slotSize {
				if len(b) <= k*slotSize {
					return ""
				}
				b = append(b, make([]byte, slotSize)...)
			}
			s := b[k*slotSize : (k+1)*slotSize]
			if i := bytes.IndexByte(s, 0); i >= 0 {
				s = s[:i]
			}
			return string(s)
		}
		for k := 0; k < n; k++ {
			if s := get(k); s != "" {
				res.slots = append(res.slots, s)
			}
		}
		if res.code == 97 {
			res.hang = get(n + 1)
		}
	}
	os.Remove(slot)
	return res
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = append(t.b[:64<<10], t.b[len(t.b)-(512<<10):]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.b) }

func fatalSig(stderr string, code int) string {
	switch {
	case code == 97:
		return "hang"
	case code == 98:
		return "memory"
	case strings.Contains(stderr, "stack overflow"):
		return "fatal: stack overflow"
	case strings.Contains(stderr, "concurrent map"):
		return "fatal: concurrent map access"
	case strings.Contains(stderr, "out of memory"):
		return "fatal: out of memory"
	}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") {
			return l
		}
	}
	return fmt.Sprintf("exit %d", code)
}

// Main is the entry point of the checker binary.
func Main() {
	var tier, only, slots, known, evdir, id string
	tier = "quick"
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	known = filepath.Join(verif, "known_findings.jsonl")
	evdir = filepath.Join(verif, "evidence")
	var isWorker, list bool
	budget := time.Duration(0)
	args := os.Args[1:]
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-worker":
			isWorker = true
		case "-tier":
			i++
			tier = args[i]
		case "-only":
			i++
			only = args[i]
		case "-slots":
			i++
			slots = args[i]
		case "-budget":
			i++
			budget, _ = time.ParseDuration(args[i])
		case "-known":
			i++
			known = args[i]
		case "-list":
			list = true
		default:
			id = args[i]
		}
	}
	if list {
		var ids []string
		for k := range Checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	c := Checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	if budget == 0 {
		budget = 420 * time.Second
		if tier == "thorough" {
			budget = 3000 * time.Second
		}
	}
	if isWorker {
		worker(c, tier, only, slots, budget, known)
		return
	}
	os.Exit(parent(c, tier, only, budget, known, evdir))
}

func parent(c *Check, tier, only string, budget time.Duration, known, evdir string) int {
	start := time.Now()
	self, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "mc-"+c.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	os.Setenv("MC_TMP", tmp)
	res := runWorker(self, c, tier, only, budget, known, tmp, budget+240*time.Second)
	viol := res.viol
	for _, k := range res.known {
		fmt.Printf("KNOWN-FINDING: property=%s case=%s sig=%s %s\n", c.ID, k.V.Case, k.V.Sig, k.Known)
	}
	if res.stats == nil {
		// the worker died: find the case
		sig := fatalSig(res.stderr, res.code)
		fmt.Printf("worker ended early: %s\n", sig)
		cand := res.slots
		if res.hang != "" {
			cand = append([]string{res.hang}, cand...)
		}
		seen := map[string]bool{}
		found := false
		for _, name := range cand {
			if seen[name] {
				continue
			}
			seen[name] = true
			r := runWorker(self, c, tier, name, 5*time.Minute, known, tmp, 5*time.Minute)
			if r.stats == nil && r.code != 0 {
				s := fatalSig(r.stderr, r.code)
				viol = append(viol, Violation{c.ID, name, s, "the checker process died: " + tail(r.stderr, 2500), tier})
				found = true
				break
			}
			if len(r.viol) > 0 {
				viol = append(viol, r.viol...)
				found = true
				break
			}
		}
		if !found && len(viol) == 0 {
			if res.code == 98 || res.code == 97 || strings.Contains(res.stderr, "concurrent map") || strings.Contains(res.stderr, "fatal error") {
				viol = append(viol, Violation{c.ID, strings.Join(cand, " | "), sig, "the checker process died: " + tail(res.stderr, 2500), tier})
			} else {
				fmt.Fprintf(os.Stderr, "checker failed: exit %d\n%s\n", res.code, tail(res.stderr, 4000))
				return 2
			}
		}
	}
	rc := 0
	if len(viol) > 0 {
		rc = 1
		dir := filepath.Join(evdir, "replay")
		os.MkdirAll(dir, 0755)
		seen := map[string]bool{}
		n := 0
		for _, v := range viol {
			if seen[v.Sig] {
				continue
			}
			seen[v.Sig] = true
			v.Tier = tier
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.ID, n))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, b, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
			fmt.Printf("  case: %s\n  what: %s: %s\n", v.Case, v.Sig, firstLines(v.Msg, 6))
			n++
			if n >= 12 {
				break
			}
		}
	}
	st := res.stats
	if st == nil {
		st = &Stats{}
	}
	if only == "" {
		cov := map[string]any{"states": st.States, "transitions": st.Trans, "traces_validated_against_impl": st.Traces, "cases": st.Cases, "exhaustive_within_bounds": st.Exhaustive, "cases_skipped_for_time": st.Skipped, "samples": st.Samples, "rule": c.Rule}
		if st.Samples == nil {
			cov["samples"] = []string{}
		}
		for k, v := range st.Counters {
			cov[k] = v
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		ev := map[string]any{"property": c.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": c.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(viol)}
		if c.Assumptions == nil {
			ev["assumptions"] = []string{}
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(evdir, 0755)
		if err := os.WriteFile(filepath.Join(evdir, c.ID+".json"), b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d cases, %d states, %d transitions, %d traces, exhaustive=%v, %d violations, %.1fs\n", c.ID, tier, st.Cases, st.States, st.Trans, st.Traces, st.Exhaustive, len(viol), time.Since(start).Seconds())
	return rc
}

func tail(s string, n int) string {
	if len(s) > n {
		i := strings.Index(s, "fatal error")
		if i < 0 {
			i = strings.Index(s, "panic:")
		}
		if i < 0 {
			i = 0
		}
		if len(s)-i > n {
			return s[i : i+n]
		}
		return s[i:]
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	r := strings.Join(l, "\n    ")
	if len(r) > 900 {
		r = r[:900] + "..."
	}
	return r
}
