package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---------------------------------------------------------------------------
// Stateless exploration: a family is a function that draws every decision from
// Choose; the engine enumerates all decision vectors depth first.  Every inner
// decision point is a state of the choice tree, every taken alternative a
// transition, every completed path one behaviour compared with the
// implementation.
// ---------------------------------------------------------------------------

type choice struct{ v, n int }

type skipPath struct{}

type Family struct {
	Name  string
	Space string // human description of the enumerated space and its bounds
	Run   func(c *C)
	Setup func(w *Worker)
	// ThoroughOnly families are left out of the quick tier
	ThoroughOnly bool
}

type Check struct {
	ID       string
	Families []Family
	// Nondet is set where a failure that does not repeat in a fresh process
	// still counts (determinism, schedules)
	Assumptions []string
}

type C struct {
	w    *Worker
	path []choice
	pos  int

	Thorough bool

	prod     int
	decided  bool
	mine     bool
	fails    []string
	desc     string
	ran      bool
	outcomes []string
	sampled  bool
	skip     bool
	// again replaces the comparison with the model (C16)
	again func(files map[string]string, pages []string, d Data, desc string)
}

const shardThreshold = 96

// Choose returns a value in [0,n); every value is explored.
func (c *C) Choose(n int) int {
	if n <= 0 {
		c.Skip()
	}
	if c.pos < len(c.path) {
		ch := c.path[c.pos]
		if ch.n != n {
			panic(fmt.Sprintf("engine: divergence while replaying a prefix: point %d had %d alternatives, now %d", c.pos, ch.n, n))
		}
		c.pos++
		c.account(n, false)
		return ch.v
	}
	c.path = append(c.path, choice{0, n})
	c.pos++
	c.account(n, true)
	return 0
}

func (c *C) Bool() bool { return c.Choose(2) == 1 }

func (c *C) account(n int, fresh bool) {
	if !c.decided {
		c.prod *= n
		if c.prod >= shardThreshold {
			c.decide()
		}
	}
}

// decide assigns the sub-tree below the current prefix to one worker
func (c *C) decide() {
	c.decided = true
	if c.w.single {
		c.mine = true
		return
	}
	key := c.prefixKey()
	if key != c.w.lastPrefix {
		c.w.lastPrefix = key
		c.w.ordinal++
	}
	c.mine = c.w.ordinal%c.w.K == c.w.shard
	if !c.mine {
		panic(skipPath{})
	}
}

func (c *C) prefixKey() string {
	var b []byte
	for _, ch := range c.path[:c.pos] {
		b = strconv.AppendInt(b, int64(ch.v), 10)
		b = append(b, ',')
	}
	return string(b) + "|" + strconv.Itoa(c.pos)
}

// Skip abandons a path that is not a member of the enumerated space.
func (c *C) Skip() { c.skip = true; panic(skipPath{}) }

// Begin marks the moment the implementation is about to run on this case.
func (c *C) Begin(desc string) {
	if !c.decided {
		c.decide()
	}
	c.desc = desc
	c.ran = true
	c.w.begin(c, desc)
}

// Alive tells the watchdog that a long case makes progress.
func (c *C) Alive() {
	c.w.caseMu.Lock()
	c.w.caseSeq++
	c.w.caseMu.Unlock()
}

// Note counts an observed outcome class.
func (c *C) Note(k string) { c.w.outcomes[k]++ }

func (c *C) Fail(format string, a ...any) {
	c.fails = append(c.fails, fmt.Sprintf(format, a...))
}

// Traces adds extra comparisons with the implementation made within one case.
func (c *C) Traces(n int) { c.w.st.Traces += int64(n) }

// States adds states/transitions explored by a search inside of one case.
func (c *C) States(states, transitions int) {
	c.w.st.States += int64(states)
	c.w.st.Transitions += int64(transitions)
}

// ---------------------------------------------------------------------------

type Stat struct {
	Family      string           `json:"family"`
	Space       string           `json:"space"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Cases       int64            `json:"cases"`
	Traces      int64            `json:"traces"`
	MaxDepth    int              `json:"max_depth"`
	Exhaustive  bool             `json:"exhaustive"`
	Outcomes    map[string]int64 `json:"outcomes,omitempty"`
	Samples     []string         `json:"samples,omitempty"`
}

type Viol struct {
	Check    string   `json:"check"`
	Family   string   `json:"family"`
	Tier     string   `json:"tier"`
	Path     [][2]int `json:"path"`
	Desc     string   `json:"case"`
	Fails    []string `json:"failures"`
	Kind     string   `json:"kind"`
	Shard    int      `json:"shard"`
	K        int      `json:"k"`
	Confirm  string   `json:"confirmed,omitempty"`
	ReplayBy string   `json:"replay_by,omitempty"`
}

type msg struct {
	Type string `json:"t"`
	Stat *Stat  `json:"stat,omitempty"`
	Viol *Viol  `json:"viol,omitempty"`
}

type Worker struct {
	left    map[string]string // what the probes of C16 give without a call before
	ready18 bool              // the site of C18 is in place
	check   *Check
	fam     *Family
	tier    string
	shard   int
	K       int
	single  bool
	shm     []byte

	ordinal    int
	lastPrefix string
	st         *Stat
	outcomes   map[string]int64

	out      *bufio.Writer
	outMu    sync.Mutex
	deadline time.Time
	nViol    int

	caseSeq  int64 // changes with every case, read by the watchdog
	caseMu   sync.Mutex
	caseCPU  time.Duration
	inCase   bool
	Scratch  string
	famState any
	sites    map[string]*siteFS
}

type shmRec struct {
	Fam     string   `json:"fam"`
	Path    [][2]int `json:"path"`
	Ordinal int      `json:"ord"`
	Last    string   `json:"last"`
	Desc    string   `json:"desc"`
	Note    string   `json:"note,omitempty"`
}

const shmSize = 1 << 18

func (w *Worker) begin(c *C, desc string) {
	// binary header: ordinal, path; then the description (cut)
	if w.shm != nil {
		b := w.shm[:8]
		n := 0
		put := func(v int) {
			b = w.shm
			b[8+4*n] = byte(v)
			b[8+4*n+1] = byte(v >> 8)
			b[8+4*n+2] = byte(v >> 16)
			b[8+4*n+3] = byte(v >> 24)
			n++
		}
		put(w.ordinal)
		put(c.pos)
		for _, ch := range c.path[:c.pos] {
			put(ch.v)
			put(ch.n)
		}
		d := desc
		if len(d) > shmSize/2 {
			d = d[:shmSize/2]
		}
		put(len(d))
		copy(w.shm[8+4*n:], d)
		w.shm[0] = 1 // running
	}
	w.caseMu.Lock()
	w.caseSeq++
	w.inCase = true
	w.caseMu.Unlock()
}

func (w *Worker) end() {
	w.caseMu.Lock()
	w.inCase = false
	w.caseMu.Unlock()
	if w.shm != nil {
		w.shm[0] = 0
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var hangCPU = 8 * time.Second

const memLimit = 3 << 30

// watchdog ends the process when one case uses too much CPU time (a loop that
// never ends) or memory.  CPU time, not wall time: a loaded machine never
// causes an alarm.  A case that waits for something for ever uses no CPU time
// at all.
func (w *Worker) watchdog() {
	var seq int64 = -1
	var start time.Duration
	var wall time.Time
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(50 * time.Millisecond)
		w.caseMu.Lock()
		s, in := w.caseSeq, w.inCase
		w.caseMu.Unlock()
		if !in || s != seq {
			seq = s
			start = cpuTime()
			wall = time.Now()
		}
		used := cpuTime() - start
		if in && (used > hangCPU || time.Since(wall) > 40*time.Second && used < 400*time.Millisecond) {
			if w.shm != nil {
				w.shm[1] = 1
			}
			os.Exit(97)
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64() > memLimit {
			if w.shm != nil {
				w.shm[1] = 2
			}
			os.Exit(98)
		}
	}
}

func (w *Worker) send(m msg) {
	w.outMu.Lock()
	defer w.outMu.Unlock()
	b, _ := json.Marshal(m)
	w.out.Write(b)
	w.out.WriteByte('\n')
	w.out.Flush()
}

func pathPairs(p []choice) [][2]int {
	r := make([][2]int, len(p))
	for i, c := range p {
		r[i] = [2]int{c.v, c.n}
	}
	return r
}

func pairsPath(p [][2]int) []choice {
	r := make([]choice, len(p))
	for i, c := range p {
		r[i] = choice{c[0], c[1]}
	}
	return r
}

// runPath executes the family once along c.path; reports whether the path was
// completed by this worker (false: skipped)
func (w *Worker) runPath(c *C) (done bool) {
	defer func() {
		w.end()
		if r := recover(); r != nil {
			if _, ok := r.(skipPath); ok {
				done = false
				return
			}
			st := string(debug.Stack())
			if c.ran && strings.Contains(st, "github.com/textwire/textwire/v2") {
				c.Fail("panicked: %v%s", r, panicSite(st))
				done = true
				return
			}
			// a panic of the harness itself: report loudly, never as a violation
			fmt.Fprintf(os.Stderr, "HARNESS PANIC in %s/%s path %v case %q: %v\n%s\n", w.check.ID, w.fam.Name, c.path, c.desc, r, debug.Stack())
			os.Exit(3)
		}
	}()
	w.fam.Run(c)
	if !c.decided {
		c.decide()
	}
	return true
}

// panicSite names the implementation function that panicked
func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "github.com/textwire/textwire/v2") && i+1 < len(lines) {
			f := strings.Fields(lines[i+1])
			if len(f) > 0 {
				return " at " + f[0]
			}
		}
	}
	return ""
}

func (w *Worker) newC(path []choice) *C {
	return &C{w: w, path: path, Thorough: w.tier == "thorough", prod: 1}
}

// runFamily enumerates the family.  resume: continue after this path.
// until: stop after this path (used to reproduce history dependent failures).
func (w *Worker) runFamily(f *Family, resume []choice, until string) {
	w.fam = f
	w.st = &Stat{Family: f.Name, Space: f.Space, Exhaustive: true}
	w.outcomes = map[string]int64{}
	if resume == nil {
		w.ordinal = -1
		w.lastPrefix = ""
	}
	if f.Setup != nil {
		f.Setup(w)
	}
	var path []choice
	var havePath bool
	common := 0 // length of the prefix shared with the previous path
	if resume != nil {
		path, common, havePath = next(resume)
		if !havePath {
			w.finish(f)
			return
		}
	}
	n := 0
	for {
		c := w.newC(path)
		done := w.runPath(c)
		// states: decision points reached for the first time on this path
		if done {
			w.st.States += int64(len(c.path)-common) + 1
			w.st.Transitions += int64(len(c.path) - common)
			if common > 0 {
				w.st.States--
			}
			if c.pos < len(c.path) {
				panic("engine: path not consumed")
			}
			if c.ran {
				w.st.Cases++
				w.st.Traces++
			}
			if len(c.path) > w.st.MaxDepth {
				w.st.MaxDepth = len(c.path)
			}
			if len(w.st.Samples) < 2 && c.ran && (w.st.Cases%997 == 1 || w.st.Cases == 1) {
				d := c.desc
				if len(d) > 300 {
					d = d[:300]
				}
				w.st.Samples = append(w.st.Samples, d)
			}
			if len(c.fails) > 0 {
				w.nViol++
				if w.nViol <= 12 {
					w.send(msg{Type: "viol", Viol: &Viol{Check: w.check.ID, Family: f.Name, Tier: w.tier, Path: pathPairs(c.path[:c.pos]), Desc: c.desc, Fails: c.fails, Kind: "mismatch", Shard: w.shard, K: w.K}})
				}
				if w.nViol >= 60 {
					w.st.Exhaustive = false
					break
				}
			}
		}
		if until != "" && fmt.Sprint(pathPairs(c.path[:c.pos])) == until {
			break
		}
		n++
		if n&15 == 0 && !w.deadline.IsZero() && time.Now().After(w.deadline) {
			w.st.Exhaustive = false
			break
		}
		path, common, havePath = next(c.path[:c.pos])
		if !havePath {
			break
		}
	}
	w.finish(f)
}

func (w *Worker) finish(f *Family) {
	w.st.Outcomes = w.outcomes
	w.send(msg{Type: "stat", Stat: w.st})
}

func next(path []choice) ([]choice, int, bool) {
	p := append([]choice(nil), path...)
	for len(p) > 0 {
		l := len(p) - 1
		if p[l].v+1 < p[l].n {
			p[l].v++
			return p, l, true
		}
		p = p[:l]
	}
	return nil, 0, false
}

func (w *Worker) selectFamilies() []*Family {
	var r []*Family
	for i := range w.check.Families {
		f := &w.check.Families[i]
		if f.ThoroughOnly && w.tier != "thorough" {
			continue
		}
		r = append(r, f)
	}
	return r
}

func argMap(args []string) map[string]string {
	m := map[string]string{}
	for i := 0; i+1 < len(args); i += 2 {
		m[strings.TrimLeft(args[i], "-")] = args[i+1]
	}
	return m
}

func newWorker(a map[string]string) *Worker {
	ck := findCheck(a["check"])
	w := &Worker{check: ck, tier: a["tier"], K: 1, out: bufio.NewWriter(os.Stdout)}
	if a["k"] != "" {
		w.K, _ = strconv.Atoi(a["k"])
		w.shard, _ = strconv.Atoi(a["shard"])
	}
	if a["deadline"] != "" {
		n, _ := strconv.ParseInt(a["deadline"], 10, 64)
		w.deadline = time.Unix(n, 0)
	}
	if p := a["shm"]; p != "" {
		f, err := os.OpenFile(p, os.O_RDWR, 0)
		if err != nil {
			fatal(err)
		}
		w.shm, err = syscall.Mmap(int(f.Fd()), 0, shmSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			fatal(err)
		}
	}
	w.Scratch = a["scratch"]
	if w.Scratch != "" {
		if err := os.MkdirAll(w.Scratch, 0o755); err != nil {
			fatal(err)
		}
		if err := os.Chdir(w.Scratch); err != nil {
			fatal(err)
		}
	}
	return w
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

func workerMain(args []string) {
	a := argMap(args)
	w := newWorker(a)
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(2)
	go w.watchdog()
	fams := w.selectFamilies()
	start := 0
	var resume []choice
	if rf := a["resume"]; rf != "" {
		var r shmRec
		b, err := os.ReadFile(rf)
		if err != nil {
			fatal(err)
		}
		if err := json.Unmarshal(b, &r); err != nil {
			fatal(err)
		}
		for i, f := range fams {
			if f.Name == r.Fam {
				start = i
			}
		}
		resume = pairsPath(r.Path)
		w.ordinal = r.Ordinal
		w.lastPrefix = r.Last
		if w.lastPrefix == "" {
			// the sharding prefix of the resumed path
			prod := 1
			for i, ch := range resume {
				prod *= ch.n
				if prod >= shardThreshold || i == len(resume)-1 {
					cc := &C{path: resume, pos: i + 1}
					w.lastPrefix = cc.prefixKey()
					break
				}
			}
		}
	}
	for i, f := range fams {
		if i < start {
			continue
		}
		if only := a["family"]; only != "" && f.Name != only {
			continue
		}
		if w.shm != nil {
			copy(w.shm[shmSize-64:], make([]byte, 64))
			copy(w.shm[shmSize-64:], f.Name)
		}
		w.runFamily(f, resume, a["until"])
		resume = nil
	}
	w.send(msg{Type: "done"})
}

// pathMain runs one single path in this process and exits 1 if it fails
func pathMain(args []string) {
	a := argMap(args)
	var v Viol
	b, err := os.ReadFile(a["file"])
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fatal(err)
	}
	a["check"], a["tier"] = v.Check, v.Tier
	w := newWorker(a)
	w.single = true
	go w.watchdog()
	for _, f := range w.selectFamilies() {
		if f.Name != v.Family {
			continue
		}
		w.fam = f
		w.st = &Stat{}
		w.outcomes = map[string]int64{}
		if f.Setup != nil {
			f.Setup(w)
		}
		c := w.newC(pairsPath(v.Path))
		if !w.runPath(c) {
			fmt.Println("path is not part of the space")
			os.Exit(0)
		}
		fmt.Printf("case: %s\n", c.desc)
		for _, s := range c.fails {
			fmt.Printf("FAIL: %s\n", s)
		}
		if len(c.fails) > 0 {
			os.Exit(1)
		}
		fmt.Println("holds")
		os.Exit(0)
	}
	fatal("no family", v.Family)
}

func (w *Worker) parseShm(b []byte) (rec shmRec, running bool, note byte) {
	running, note = b[0] == 1, b[1]
	n := 0
	get := func() int {
		o := 8 + 4*n
		n++
		return int(int32(uint32(b[o]) | uint32(b[o+1])<<8 | uint32(b[o+2])<<16 | uint32(b[o+3])<<24))
	}
	rec.Ordinal = get()
	k := get()
	for i := 0; i < k; i++ {
		v := get()
		nn := get()
		rec.Path = append(rec.Path, [2]int{v, nn})
	}
	l := get()
	rec.Desc = string(b[8+4*n : 8+4*n+l])
	rec.Fam = string(bytes.TrimRight(b[shmSize-64:shmSize], "\x00"))
	return
}

// ---------------------------------------------------------------------------
// parent
// ---------------------------------------------------------------------------

type result struct {
	mu    sync.Mutex
	stats []*Stat
	viols []*Viol
	errs  []string
}

func runMain(args []string) int {
	a := argMap(args)
	ck := findCheck(a["check"])
	tier := a["tier"]
	if tier == "" {
		tier = "quick"
	}
	t0 := time.Now()
	budget := 260
	if tier == "thorough" {
		budget = 760
	}
	if s := a["budget"]; s != "" {
		budget, _ = strconv.Atoi(s)
	}
	K := 8
	if s := a["k"]; s != "" {
		K, _ = strconv.Atoi(s)
	}
	scratch := a["scratch"]
	self, _ := os.Executable()
	deadline := t0.Add(time.Duration(budget) * time.Second)
	res := &result{}
	var wg sync.WaitGroup
	for i := 0; i < K; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			superviseShard(self, ck, tier, i, K, scratch, deadline, a["family"], res)
		}(i)
	}
	wg.Wait()
	if len(res.errs) > 0 {
		for _, e := range res.errs {
			fmt.Fprintln(os.Stderr, "check error:", e)
		}
		return 3
	}
	return report(self, ck, tier, t0, a["verif"], scratch, res)
}

func superviseShard(self string, ck *Check, tier string, shard, K int, scratch string, deadline time.Time, onlyFam string, res *result) {
	dir := filepath.Join(scratch, fmt.Sprintf("w%d", shard))
	os.MkdirAll(dir, 0o755)
	shmPath := filepath.Join(scratch, fmt.Sprintf("shm%d", shard))
	os.WriteFile(shmPath, make([]byte, shmSize), 0o600)
	resume := ""
	crashes := 0
	for {
		args := []string{"worker", "-check", ck.ID, "-tier", tier, "-shard", strconv.Itoa(shard), "-k", strconv.Itoa(K),
			"-shm", shmPath, "-scratch", dir, "-deadline", strconv.FormatInt(deadline.Unix(), 10)}
		if onlyFam != "" {
			args = append(args, "-family", onlyFam)
		}
		if resume != "" {
			args = append(args, "-resume", resume)
		}
		cmd := exec.Command(self, args...)
		var errb tailBuf
		cmd.Stderr = &errb
		cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
		so, err := cmd.StdoutPipe()
		if err != nil {
			res.fail(err.Error())
			return
		}
		if err := cmd.Start(); err != nil {
			res.fail(err.Error())
			return
		}
		done := false
		sc := bufio.NewReader(so)
		for {
			line, err := sc.ReadBytes('\n')
			if len(line) > 1 {
				var m msg
				if json.Unmarshal(line, &m) == nil {
					res.mu.Lock()
					switch m.Type {
					case "stat":
						res.stats = append(res.stats, m.Stat)
					case "viol":
						if os.Getenv("VERIF_FIRST") != "" {
							// tools/mutate: one report is enough there
							fmt.Println("FIRST", m.Viol.Family+":", cut(m.Viol.Desc), cut(strings.Join(m.Viol.Fails, "; ")))
							os.Exit(1)
						}
						res.viols = append(res.viols, m.Viol)
					case "done":
						done = true
					}
					res.mu.Unlock()
				}
			}
			if err != nil {
				break
			}
		}
		werr := cmd.Wait()
		if done && werr == nil {
			return
		}
		// the worker died
		b, _ := os.ReadFile(shmPath)
		w := &Worker{}
		rec, running, note := w.parseShm(b)
		if !running || exitCode(werr) == 3 {
			res.fail(fmt.Sprintf("worker %d of %s ended outside of a case: %v\n%s", shard, ck.ID, werr, errb.String()))
			return
		}
		kind := "crash"
		what := "the process died: " + firstLines(errb.String(), 4)
		if note == 1 {
			kind, what = "hang", fmt.Sprintf("did not return within %v of CPU time, or waited for ever", hangCPU)
		} else if note == 2 {
			kind, what = "memory", "did not return before using 3 GB of memory"
		}
		if os.Getenv("VERIF_FIRST") != "" {
			fmt.Println("FIRST", rec.Fam+":", what)
			os.Exit(1)
		}
		res.mu.Lock()
		res.viols = append(res.viols, &Viol{Check: ck.ID, Family: rec.Fam, Tier: tier, Path: rec.Path, Desc: rec.Desc, Fails: []string{what}, Kind: kind, Shard: shard, K: K})
		res.mu.Unlock()
		crashes++
		if crashes >= 4 || time.Now().After(deadline) {
			res.mu.Lock()
			res.stats = append(res.stats, &Stat{Family: rec.Fam, Exhaustive: false})
			res.mu.Unlock()
			return
		}
		rb, _ := json.Marshal(rec)
		resume = filepath.Join(scratch, fmt.Sprintf("resume%d.json", shard))
		os.WriteFile(resume, rb, 0o600)
		os.WriteFile(shmPath, make([]byte, shmSize), 0o600)
	}
}

func (r *result) fail(s string) {
	r.mu.Lock()
	r.errs = append(r.errs, s)
	r.mu.Unlock()
}

func exitCode(err error) int {
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode()
	}
	return 0
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func caseKey(v *Viol) string {
	h := fnv.New64a()
	h.Write([]byte(v.Desc))
	return fmt.Sprintf("%s/%016x", v.Family, h.Sum64())
}

// confirm re-runs the failing path five times in fresh processes; when it does
// not fail alone, the same worker is re-run from the start up to the path.
func confirm(self string, v *Viol, file, scratch string) (bool, string) {
	bad := 0
	rounds := 5
	if v.Kind == "hang" || v.Kind == "memory" {
		rounds = 1
	}
	for i := 0; i < rounds; i++ {
		dir := filepath.Join(scratch, "confirm")
		os.RemoveAll(dir)
		cmd := exec.Command(self, "path", "-file", file, "-scratch", dir)
		err := cmd.Run()
		if c := exitCode(err); err != nil && c != 3 {
			bad++
		}
		if bad == 0 && i == 1 && v.Kind == "mismatch" {
			// two clean runs: try the rest only for flaky behaviour
			continue
		}
	}
	if bad > 0 {
		return true, fmt.Sprintf("failed in %d of %d fresh processes running only this case", bad, rounds)
	}
	dir := filepath.Join(scratch, "confirm2")
	os.RemoveAll(dir)
	cmd := exec.Command(self, "worker", "-check", v.Check, "-tier", v.Tier, "-shard", strconv.Itoa(v.Shard), "-k", strconv.Itoa(v.K),
		"-scratch", dir, "-family", v.Family, "-until", fmt.Sprint(v.Path))
	out, err := cmd.Output()
	if c := exitCode(err); err != nil && c != 3 {
		return true, "fails after the preceding cases of the same worker (history dependent)"
	}
	for _, line := range bytes.Split(out, []byte("\n")) {
		var m msg
		if json.Unmarshal(line, &m) == nil && m.Type == "viol" && fmt.Sprint(m.Viol.Path) == fmt.Sprint(v.Path) {
			return true, "fails after the preceding cases of the same worker (history dependent)"
		}
	}
	return false, ""
}

func report(self string, ck *Check, tier string, t0 time.Time, verif, scratch string, res *result) int {
	sort.Slice(res.viols, func(i, j int) bool {
		a, b := res.viols[i], res.viols[j]
		if len(a.Desc) != len(b.Desc) {
			return len(a.Desc) < len(b.Desc)
		}
		return a.Desc < b.Desc
	})
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), ck.ID)
	var confirmed []*Viol
	var unreproduced []string
	knownHit := map[string]bool{}
	printed := 0
	repDir := filepath.Join(verif, "evidence", "replays")
	for _, v := range res.viols {
		key := caseKey(v)
		if what, ok := known[key]; ok {
			if !knownHit[key] {
				knownHit[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, what)
			}
			continue
		}
		if len(confirmed) >= 5 || (v.Kind == "hang" && len(confirmed) >= 2) {
			break
		}
		os.MkdirAll(repDir, 0o755)
		file := filepath.Join(repDir, fmt.Sprintf("%s-%s.json", ck.ID, strings.ReplaceAll(key, "/", "-")))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(file, b, 0o644)
		ok, how := confirm(self, v, file, scratch)
		if !ok {
			unreproduced = append(unreproduced, fmt.Sprintf("%s: %s: %v", v.Family, v.Desc, v.Fails))
			os.Remove(file)
			if len(unreproduced) > 6 {
				break
			}
			continue
		}
		v.Confirm = how
		v.ReplayBy = "cd /verif && ./check.sh replay " + file
		b, _ = json.MarshalIndent(v, "", " ")
		os.WriteFile(file, b, 0o644)
		confirmed = append(confirmed, v)
		printed++
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, file)
		d := v.Desc
		if len(d) > 400 {
			d = d[:400] + "..."
		}
		fmt.Printf("  family %s, %s\n  case: %s\n", v.Family, how, d)
		for _, s := range v.Fails {
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			fmt.Printf("  %s\n", s)
		}
	}
	// merge the statistics of the shards
	byFam := map[string]*Stat{}
	var order []string
	tot := Stat{Exhaustive: true}
	for _, s := range res.stats {
		m := byFam[s.Family]
		if m == nil {
			m = &Stat{Family: s.Family, Space: s.Space, Exhaustive: true, Outcomes: map[string]int64{}}
			byFam[s.Family] = m
			order = append(order, s.Family)
		}
		if m.Space == "" {
			m.Space = s.Space
		}
		m.States += s.States
		m.Transitions += s.Transitions
		m.Cases += s.Cases
		m.Traces += s.Traces
		m.Exhaustive = m.Exhaustive && s.Exhaustive
		if s.MaxDepth > m.MaxDepth {
			m.MaxDepth = s.MaxDepth
		}
		for k, n := range s.Outcomes {
			m.Outcomes[k] += n
		}
		if len(m.Samples) < 2 {
			m.Samples = append(m.Samples, s.Samples...)
			if len(m.Samples) > 2 {
				m.Samples = m.Samples[:2]
			}
		}
		tot.States += s.States
		tot.Transitions += s.Transitions
		tot.Cases += s.Cases
		tot.Traces += s.Traces
		tot.Exhaustive = tot.Exhaustive && s.Exhaustive
	}
	var fams []*Stat
	var samples []any
	for _, n := range order {
		fams = append(fams, byFam[n])
		for _, s := range byFam[n].Samples {
			if len(samples) < 12 {
				samples = append(samples, map[string]string{"family": n, "case": s})
			}
		}
	}
	if len(res.viols) > 0 && len(confirmed) > 0 || os.Getenv("VERIF_NOINSTR") != "" {
		tot.Exhaustive = false
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": ck.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": tot.States, "transitions": tot.Transitions,
			"traces_validated_against_impl": tot.Traces,
			"evaluations":                   tot.Cases,
			"exhaustive":                    tot.Exhaustive,
			"samples":                       samples,
			"families":                      fams,
			"rule":                          "states/transitions are nodes/edges of the decision tree of every family (all alternatives explored depth first); every completed path is executed on the implementation built from /repo's working tree and compared with the reference model",
			"unreproduced":                  unreproduced,
		},
		"assumptions": ck.Assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(confirmed),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", ck.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, f := range fams {
		fmt.Printf("%s %-22s states=%d transitions=%d cases=%d traces=%d depth=%d exhaustive=%v outcomes=%v\n", ck.ID, f.Family, f.States, f.Transitions, f.Cases, f.Traces, f.MaxDepth, f.Exhaustive, f.Outcomes)
	}
	for _, u := range unreproduced {
		fmt.Printf("unreproduced (not counted): %s\n", u)
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d exhaustive=%v violations=%d wall=%.1fs\n", ck.ID, tier, tot.States, tot.Transitions, tot.Traces, tot.Exhaustive, len(confirmed), time.Since(t0).Seconds())
	if len(confirmed) > 0 {
		return 1
	}
	return 0
}

// known findings: "known: property=C01 case=<family>/<hash> <what>"
func loadKnown(file, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 || f[1] != "property="+id {
			continue
		}
		m[strings.TrimPrefix(f[2], "case=")] = strings.Join(f[3:], " ")
	}
	return m
}
