// Command verifharness decides the properties of go-identity by exhaustive
// exploration of bounded spaces of behaviours of the real code.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

func fatalf(f string, a ...interface{}) {
	panic(fmt.Sprintf("harness: "+f, a...))
}

// Violation is one failure of a property.
type Violation struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Key      string `json:"key"`
	Detail   string `json:"detail"`
	Idx      int    `json:"idx"`
	// History holds the numbers of the cases that run before it in the same
	// process, if it fails only after them.
	History []int `json:"history,omitempty"`
}

// Stats is what one worker measured.
type Stats struct {
	Counters   map[string]int64       `json:"counters"`
	Samples    []interface{}          `json:"samples"`
	Violations []Violation            `json:"violations"`
	Incomplete []string               `json:"incomplete"`
	Notes      map[string]interface{} `json:"notes"`
	Cases      int                    `json:"cases"`
	Order      uint64                 `json:"order"` // of the cases, as this worker numbered them
}

// Ctx is the exploration of one property in one worker.
type Ctx struct {
	Prop     string
	Thorough bool
	Seed     int64
	Verif    string
	Scratch  string

	only     string
	history  map[int]bool
	ran      *os.File
	listOnly bool
	workers  int
	worker   int
	deadline time.Time
	shared   []byte
	idx      int
	ticket   int
	stats    Stats
	states   map[string]map[uint64]struct{}
	stopped  bool
	Race     bool
	known    map[string]bool
	failed   map[string]int
}

// V is the verdict on one case.
type V struct {
	c  *Ctx
	id string
	n  int
}

var curCtx *Ctx

func (c *Ctx) slot(i int) []byte { return c.shared[64+1024*i : 64+1024*(i+1)] }

func u64(b []byte) *uint64 { return (*uint64)(unsafe.Pointer(&b[0])) }

// beat tells the supervisor that the code under test makes progress.
func beat() {
	if c := curCtx; c != nil && c.shared != nil {
		atomic.AddUint64(u64(c.slot(c.worker)[8:]), 1)
	}
}

// Expired reports whether the budget of the run is used up.
func (c *Ctx) Expired() bool {
	if c.stopped {
		return true
	}
	if (c.only == "" || c.history != nil) && (time.Now().After(c.deadline) || (c.shared != nil && atomic.LoadUint64(u64(c.shared[8:])) != 0)) {
		c.stopped = true
		c.stats.Incomplete = append(c.stats.Incomplete, "budget used up")
	}
	return c.stopped
}

// Case is one unit of the exploration. The cases of a property are numbered in
// the order in which every worker enumerates them; each is run by one worker.
func (c *Ctx) Case(id string, f func(v *V)) {
	idx := c.idx
	c.idx++
	for i := 0; i < len(id); i++ {
		c.stats.Order = (c.stats.Order ^ uint64(id[i])) * 1099511628211
	}
	c.stats.Order = (c.stats.Order ^ '/') * 1099511628211
	if c.listOnly {
		fmt.Println(id)
		return
	}
	if c.history != nil {
		if !c.history[idx] || c.Expired() {
			return
		}
	} else if c.only != "" {
		if id != c.only {
			return
		}
	} else {
		if idx != c.ticket {
			return
		}
		if c.Expired() {
			return
		}
	}
	v := &V{c: c, id: id}
	if c.shared != nil {
		s := c.slot(c.worker)
		n := copy(s[24:], id)
		atomic.StoreUint64(u64(s[16:]), uint64(n))
		atomic.StoreUint64(u64(s[0:]), uint64(idx)+1)
		beat()
	}
	if c.ran != nil {
		var b [4]byte
		binary.LittleEndian.PutUint32(b[:], uint32(idx))
		c.ran.Write(b[:])
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				if len(st) > 4000 {
					st = st[:4000]
				}
				v.Fail("panic", "panic: %v\n%s", p, st)
			}
		}()
		f(v)
	}()
	c.stats.Cases++
	if c.shared != nil {
		atomic.StoreUint64(u64(c.slot(c.worker)[0:]), 0)
		c.claim()
	}
}

func (c *Ctx) claim() {
	if c.shared != nil {
		c.ticket = int(atomic.AddUint64(u64(c.shared), 1)) - 1
	}
}

// Fail records a violation. The key identifies the failing input or history
// within the case.
func (v *V) Fail(key, f string, a ...interface{}) {
	v.n++
	if v.n > 20 {
		return
	}
	full := v.id
	if key != "" {
		full += " :: " + key
	}
	if !v.c.known[full] {
		v.c.failed["all"]++
		if v.c.failed["all"] > 30 {
			v.c.stopped = true
		}
	}
	v.c.stats.Violations = append(v.c.stats.Violations, Violation{
		Property: v.c.Prop, Case: v.id, Key: full, Detail: fmt.Sprintf(f, a...), Idx: v.c.idx,
	})
}

// Failed reports whether the case already has a violation.
func (v *V) Failed() bool { return v.n > 0 }

func (v *V) Count(name string, n int) { v.c.stats.Counters[name] += int64(n) }

// State counts a distinct state (or outcome, or case) of a kind.
func (v *V) State(kind, key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	m := v.c.states[kind]
	if m == nil {
		m = map[uint64]struct{}{}
		v.c.states[kind] = m
	}
	m[h.Sum64()] = struct{}{}
}

// Sample keeps a case for the evidence.
func (v *V) Sample(x interface{}) {
	if len(v.c.stats.Samples) < 3 {
		v.c.stats.Samples = append(v.c.stats.Samples, x)
	}
}

// WantSample reports whether Sample would keep anything.
func (v *V) WantSample() bool { return len(v.c.stats.Samples) < 3 }

func (v *V) Incomplete(why string) {
	for _, s := range v.c.stats.Incomplete {
		if s == why {
			return
		}
	}
	v.c.stats.Incomplete = append(v.c.stats.Incomplete, why)
}

// Property describes a check.
type Property struct {
	ID          string
	Level       string
	Rule        string
	Quick       time.Duration // budget of the exploration
	Thorough    time.Duration
	Run         func(c *Ctx)
	Race        bool
	Assumptions []string
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func main() {
	if dir := os.Getenv("VERIF_EMIT"); dir != "" {
		emitRandom(dir)
		return
	}
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	verif := flag.String("verif", "/verif", "directory")
	workers := flag.Int("workers", 8, "worker processes")
	worker := flag.Int("worker", -1, "internal")
	shared := flag.String("shared", "", "internal")
	scratch := flag.String("scratch", "", "internal")
	out := flag.String("out", "", "internal")
	only := flag.String("case", "", "run one case")
	replay := flag.String("replay", "", "replay a violation file")
	history := flag.String("history", "", "internal: a file with the numbers of cases to run one after another in one process")
	list := flag.Bool("list", false, "list cases")
	deadline := flag.Int64("deadline", 0, "internal")
	budget := flag.Duration("budget", 0, "override the budget")
	flag.Parse()
	var before []int
	if *replay != "" {
		var v Violation
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Println("replay:", err)
			os.Exit(2)
		}
		*prop, *only, before = v.Property, v.Case, v.History
	}
	if *history != "" {
		b, err := os.ReadFile(*history)
		if err == nil {
			err = json.Unmarshal(b, &before)
		}
		if err != nil {
			fatalf("-history: %v", err)
		}
	}
	p := properties[*prop]
	if p == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	if *worker >= 0 || *list || *only != "" {
		runWorker(p, *tier, *seed, *verif, *workers, *worker, *shared, *scratch, *out, *only, before, *list, *deadline)
		return
	}
	os.Exit(supervise(p, *tier, *seed, *verif, *workers, *budget))
}

func runWorker(p *Property, tier string, seed int64, verif string, workers, worker int, shared, scratch, out, only string, history []int, list bool, deadline int64) {
	own := false
	if scratch == "" {
		own = true
		scratch = makeScratch()
	}
	c := &Ctx{Prop: p.ID, Thorough: tier == "thorough", Seed: seed, Verif: verif, only: only, listOnly: list, workers: workers,
		worker: worker, states: map[string]map[uint64]struct{}{}, known: map[string]bool{}, failed: map[string]int{}}
	c.stats.Counters = map[string]int64{}
	c.Scratch = filepath.Join(scratch, fmt.Sprintf("w%d-%d", worker, os.Getpid()))
	c.deadline = time.Unix(0, deadline)
	if deadline == 0 {
		c.deadline = time.Now().Add(time.Hour)
	}
	for k := range loadKnown(verif, p.ID) {
		c.known[k] = true
	}
	if err := os.MkdirAll(c.Scratch, 0700); err != nil {
		panic(err)
	}
	if shared != "" {
		f, err := os.OpenFile(shared, os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}
		st, _ := f.Stat()
		c.shared, err = syscall.Mmap(int(f.Fd()), 0, int(st.Size()), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			panic(err)
		}
	}
	if len(history) > 0 {
		c.history = map[int]bool{}
		for _, n := range history {
			c.history[n] = true
		}
	} else if only == "" && out != "" {
		c.ran, _ = os.Create(out + ".ran")
	}
	curCtx = c
	if os.Getenv("VERIF_STACKS") != "" {
		debug.SetTraceback("all")
	}
	debug.SetGCPercent(400)
	loadFixtures()
	installHooks()
	if only == "" {
		c.claim()
	}
	if f := os.Getenv("VERIF_CPUPROFILE"); f != "" && only != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	p.Run(c)
	pprof.StopCPUProfile()
	os.RemoveAll(c.Scratch)
	if own {
		os.RemoveAll(scratch)
	}
	if out != "" {
		for kind, set := range c.states {
			b := make([]byte, 0, len(set)*8)
			for h := range set {
				b = binary.LittleEndian.AppendUint64(b, h)
			}
			os.WriteFile(out+".states."+kind, b, 0600)
		}
		b, err := json.Marshal(c.stats)
		if err != nil {
			panic(err)
		}
		os.WriteFile(out+".tmp", b, 0600)
		os.Rename(out+".tmp", out)
		os.Exit(0)
	}
	for _, v := range c.stats.Violations {
		k := ""
		if c.known[v.Key] {
			k = " (known)"
		}
		fmt.Printf("FAIL%s %s\n%s\n", k, v.Key, v.Detail)
	}
	if !list {
		fmt.Println("violations:", len(c.stats.Violations), "counters:", c.stats.Counters)
	}
	if len(c.stats.Violations) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

func makeScratch() string {
	for _, base := range []string{"/dev/shm", os.TempDir()} {
		d, err := os.MkdirTemp(base, "verif-")
		if err == nil {
			return d
		}
	}
	panic("no scratch directory")
}

// loadKnown reads the known findings of a property: key to description.
func loadKnown(verif, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+prop+" key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " => ")
		if k, err := unquote(key); err == nil {
			out[k] = what
		}
	}
	return out
}

func unquote(s string) (string, error) {
	var out string
	err := json.Unmarshal([]byte(s), &out)
	return out, err
}

const stallLimit = 60 * time.Second

type proc struct {
	i    int
	cmd  *exec.Cmd
	out  string
	errb *bytes.Buffer
	done chan error
	beat uint64
	last time.Time
}

func tail(b []byte, n int) string {
	s := strings.TrimSpace(string(b))
	if len(s) > n {
		// The head of a crash report says what happened.
		s = s[:n] + "..."
	}
	return s
}

func supervise(p *Property, tier string, seed int64, verif string, workers int, budget time.Duration) int {
	start := time.Now()
	scratch := makeScratch()
	defer os.RemoveAll(scratch)
	if budget == 0 {
		budget = p.Quick
		if tier == "thorough" {
			budget = p.Thorough
		}
	}
	deadline := start.Add(budget)
	sharedPath := filepath.Join(scratch, "shared")
	if err := os.WriteFile(sharedPath, make([]byte, 64+1024*(workers+1)), 0600); err != nil {
		fmt.Println(err)
		return 2
	}
	f, _ := os.OpenFile(sharedPath, os.O_RDWR, 0)
	st, _ := f.Stat()
	shared, err := syscall.Mmap(int(f.Fd()), 0, int(st.Size()), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	sc := &Ctx{shared: shared}
	self, _ := os.Executable()
	gen := 0
	var total []*proc
	spawn := func(i int) *proc {
		gen++
		pr := &proc{i: i, out: filepath.Join(scratch, fmt.Sprintf("out%d-%d", i, gen)), errb: &bytes.Buffer{}, done: make(chan error, 1), last: time.Now()}
		pr.cmd = exec.Command(self, "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-verif", verif, "-workers", fmt.Sprint(workers),
			"-worker", fmt.Sprint(i), "-shared", sharedPath, "-scratch", scratch, "-out", pr.out, "-deadline", fmt.Sprint(deadline.UnixNano()))
		pr.cmd.Stdout, pr.cmd.Stderr = pr.errb, pr.errb
		pr.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=log_path="+filepath.Join(scratch, "race")+" exitcode=0 atexit_sleep_ms=0 history_size=4")
		if err := pr.cmd.Start(); err != nil {
			panic(err)
		}
		go func() { pr.done <- pr.cmd.Wait() }()
		total = append(total, pr)
		return pr
	}
	var candidates []Violation
	running := map[*proc]bool{}
	for i := 0; i < workers; i++ {
		running[spawn(i)] = true
	}
	respawns := 0
	crash := func(pr *proc, why string) {
		s := sc.slot(pr.i)
		if idx := atomic.LoadUint64(u64(s)); idx != 0 {
			id := string(s[24 : 24+atomic.LoadUint64(u64(s[16:]))])
			candidates = append(candidates, Violation{p.ID, id, id + " :: " + why, why + "\n" + tail(pr.errb.Bytes(), 3000), int(idx), historyOf(pr.out, int(idx)-1)})
			atomic.StoreUint64(u64(s), 0)
		} else {
			fmt.Printf("note: worker %d ended outside a case: %s\n%s\n", pr.i, why, tail(pr.errb.Bytes(), 3000))
		}
		if respawns < 5 && time.Now().Before(deadline) {
			respawns++
			running[spawn(pr.i)] = true
		} else {
			// Others take over what is left; stop early.
			atomic.StoreUint64(u64(shared[8:]), 1)
		}
	}
	for len(running) > 0 {
		for pr := range running {
			select {
			case err := <-pr.done:
				delete(running, pr)
				if _, e := os.Stat(pr.out); err != nil || e != nil {
					crash(pr, "the process crashed")
				}
				continue
			default:
			}
			s := sc.slot(pr.i)
			b := atomic.LoadUint64(u64(s[8:]))
			if b != pr.beat || atomic.LoadUint64(u64(s)) == 0 {
				pr.beat, pr.last = b, time.Now()
			}
			if time.Since(pr.last) > stallLimit {
				pr.cmd.Process.Kill()
				<-pr.done
				delete(running, pr)
				crash(pr, "an operation does not return")
			}
		}
		time.Sleep(20 * time.Millisecond)
	}
	// Merge.
	counters := map[string]int64{}
	var samples []interface{}
	incomplete := map[string]bool{}
	orders := map[uint64]bool{}
	cases := 0
	states := map[string]map[uint64]struct{}{}
	for _, pr := range total {
		b, err := os.ReadFile(pr.out)
		if err != nil {
			incomplete["a worker crashed"] = true
			continue
		}
		var s Stats
		if err := json.Unmarshal(b, &s); err != nil {
			fmt.Println(err)
			return 2
		}
		for k, n := range s.Counters {
			counters[k] += n
		}
		if len(samples) < 6 {
			samples = append(samples, s.Samples...)
		}
		for _, w := range s.Incomplete {
			incomplete[w] = true
		}
		orders[s.Order] = true
		cases += s.Cases
		for _, v := range s.Violations {
			v.History = historyOf(pr.out, v.Idx-1)
			candidates = append(candidates, v)
		}
		files, _ := filepath.Glob(pr.out + ".states.*")
		for _, f := range files {
			kind := strings.TrimPrefix(f, pr.out+".states.")
			b, _ := os.ReadFile(f)
			if states[kind] == nil {
				states[kind] = map[uint64]struct{}{}
			}
			for ; len(b) >= 8; b = b[8:] {
				states[kind][binary.LittleEndian.Uint64(b)] = struct{}{}
			}
		}
	}
	if len(orders) > 1 && len(incomplete) == 0 {
		incomplete["the workers numbered the cases differently"] = true
	}
	sort.SliceStable(candidates, func(i, j int) bool { return candidates[i].Idx < candidates[j].Idx })
	known := loadKnown(verif, p.ID)
	knownSeen := map[string]bool{}
	var fresh []Violation
	for _, v := range candidates {
		if _, ok := known[v.Key]; ok {
			knownSeen[v.Key] = true
		} else {
			fresh = append(fresh, v)
		}
	}
	for _, k := range sortedKeys(knownSeen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, known[k])
	}
	// Confirm in fresh processes.
	var confirmed *Violation
	tried := map[string]bool{}
	for i := range fresh {
		v := fresh[i]
		if tried[v.Case] || len(tried) >= 4 || time.Since(start) > 650*time.Second {
			continue
		}
		tried[v.Case] = true
		for n := 0; n < 5; n++ {
			if rerun(self, p, tier, seed, verif, workers, scratch, &v, n, known, false) {
				confirmed = &v
				break
			}
		}
		// It may be what an earlier case has left in the process.
		if confirmed == nil && len(v.History) > 1 && len(tried) <= 2 && time.Since(start) < 550*time.Second &&
			rerun(self, p, tier, seed, verif, workers, scratch, &v, 5, known, true) {
			confirmed = &v
			confirmed.Detail = fmt.Sprintf("after %d other cases in the same process:\n%s", len(v.History)-1, v.Detail)
		}
		if confirmed != nil {
			break
		}
		fmt.Printf("note: not reproduced, ignored: %s\n%s\n", v.Key, v.Detail)
	}
	exhaustive := len(incomplete) == 0 && len(fresh) == 0
	cov := map[string]interface{}{"cases": cases, "exhaustive": exhaustive, "samples": samples, "rule": p.Rule + sizes[p.ID]}
	for k, n := range counters {
		cov[k] = n
	}
	for k, s := range states {
		cov[k] = len(s)
	}
	if len(samples) == 0 {
		cov["samples"] = []interface{}{"(none)"}
	}
	if len(incomplete) > 0 {
		cov["incomplete"] = sortedKeys(incomplete)
	}
	for _, k := range requiredCoverage(p.Level) {
		if _, ok := cov[k]; !ok {
			cov[k] = 0
		}
	}
	nv := 0
	if confirmed != nil {
		nv = len(fresh)
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": nv,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	keys := []string{}
	for k := range cov {
		if k != "samples" && k != "rule" {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var parts []string
	for _, k := range keys {
		parts = append(parts, fmt.Sprintf("%s=%v", k, cov[k]))
	}
	fmt.Printf("%s %s: %s wall=%.1fs\n", p.ID, tier, strings.Join(parts, " "), time.Since(start).Seconds())
	if confirmed != nil {
		dir := filepath.Join(verif, "build", "replays")
		os.MkdirAll(dir, 0755)
		h := fnv.New32a()
		h.Write([]byte(confirmed.Key))
		path := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", p.ID, h.Sum32()))
		b, _ := json.MarshalIndent(confirmed, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
		fmt.Printf("%s\n%s\n", confirmed.Key, confirmed.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	return 0
}

// historyOf is the list of cases that a worker has run, up to one of them.
func historyOf(out string, idx int) []int {
	b, _ := os.ReadFile(out + ".ran")
	var l []int
	for ; len(b) >= 4; b = b[4:] {
		n := int(binary.LittleEndian.Uint32(b))
		l = append(l, n)
		if n == idx {
			return l
		}
	}
	return nil
}

func requiredCoverage(level string) []string {
	switch level {
	case "model_checking":
		return []string{"states", "transitions", "traces_validated_against_impl"}
	case "exploration", "fault_enumeration":
		return []string{"evaluations", "distinct_nontrivial"}
	}
	return nil
}

// rerun runs one case in a fresh process and reports whether it fails again.
func rerun(self string, p *Property, tier string, seed int64, verif string, workers int, scratch string, v *Violation, n int, known map[string]string, history bool) bool {
	out := filepath.Join(scratch, fmt.Sprintf("rerun%d-%d", time.Now().UnixNano(), n))
	sharedPath := out + ".shared"
	os.WriteFile(sharedPath, make([]byte, 64+1024*(workers+1)), 0600)
	f, err := os.OpenFile(sharedPath, os.O_RDWR, 0)
	if err != nil {
		return false
	}
	defer f.Close()
	shared, err := syscall.Mmap(int(f.Fd()), 0, 64+1024*(workers+1), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return false
	}
	defer syscall.Munmap(shared)
	var errb bytes.Buffer
	cmd := exec.Command(self, "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-verif", verif, "-workers", fmt.Sprint(workers),
		"-worker", "0", "-shared", sharedPath, "-scratch", scratch, "-out", out, "-case", v.Case)
	if history {
		b, _ := json.Marshal(v.History)
		if os.WriteFile(out+".history", b, 0600) != nil {
			return false
		}
		cmd.Args = append(cmd.Args, "-history", out+".history", "-deadline", fmt.Sprint(time.Now().Add(240*time.Second).UnixNano()))
	}
	cmd.Stdout, cmd.Stderr = &errb, &errb
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=log_path="+filepath.Join(scratch, "race")+" exitcode=0 atexit_sleep_ms=0 history_size=4")
	if err := cmd.Start(); err != nil {
		return false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var lastBeat uint64
	last := time.Now()
	sc := &Ctx{shared: shared}
	for {
		select {
		case err := <-done:
			b, e := os.ReadFile(out)
			if err != nil || e != nil {
				if atomic.LoadUint64(u64(sc.slot(0))) != 0 {
					v.Detail += "\n" + tail(errb.Bytes(), 2000)
					return true
				}
				return false
			}
			var s Stats
			if json.Unmarshal(b, &s) != nil {
				return false
			}
			for _, x := range s.Violations {
				if _, ok := known[x.Key]; !ok && (!history || x.Case == v.Case) {
					if history {
						x.History = v.History
					}
					*v = x
					return true
				}
			}
			return false
		default:
		}
		if b := atomic.LoadUint64(u64(sc.slot(0)[8:])); b != lastBeat {
			lastBeat, last = b, time.Now()
		}
		if time.Since(last) > stallLimit {
			cmd.Process.Kill()
			<-done
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func sortedKeys(m map[string]bool) []string { return sortedNames(m) }

// sortedNames are the keys of a map in the order that all workers use.
func sortedNames[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
