// Package main is the model-checking harness of go-latex/latex. It is built
// inside the module of the repository with 'go build -overlay', see ../check.sh.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is the exhaustive exploration that decides one property.
type Check struct {
	id          string
	level       string // evidence level, model_checking by default
	rule        string // how the cases are made
	stateRule   string // what a state and a transition are
	assumptions []string

	gen func(g *Gen)               // emits every case of the bounded space
	run func(w *Worker, cs string) // runs one case on the real code against the oracle

	serial bool          // one worker only
	heavy  bool          // cases are handed out one by one
	limit  time.Duration // for one case
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.id] = c }

// Gen is handed to generators.
type Gen struct {
	tier     string
	thorough bool
	out      chan []string
	buf      []string
	n        int64
	phases   []phase
	deadline time.Time
	capped   bool
	stop     atomic.Bool // enough
	only     string
	heavy    bool
}

type phase struct {
	Name  string `json:"name"`
	Cases int64  `json:"cases"`
}

// Phase starts a new family of cases.
func (g *Gen) Phase(name string) { g.phases = append(g.phases, phase{Name: name}) }

// Emit adds a case to the exploration.
func (g *Gen) Emit(cs string) {
	if g.capped || (g.only != "" && g.phases[len(g.phases)-1].Name != g.only) {
		return
	}
	g.buf = append(g.buf, cs)
	g.n++
	if len(g.phases) > 0 {
		g.phases[len(g.phases)-1].Cases++
	}
	if len(g.buf) >= 64 || g.heavy {
		g.flush()
	}
}

func (g *Gen) flush() {
	if len(g.buf) == 0 {
		return
	}
	if g.stop.Load() || time.Now().After(g.deadline) {
		g.capped = true
		g.buf = nil
		return
	}
	g.out <- g.buf
	g.buf = nil
}

// pick returns q or t depending on the tier.
func pick[T any](g *Gen, q, t T) T {
	if g.thorough {
		return t
	}
	return q
}

// Viol is a violation found.
type Viol struct {
	Case string `json:"case"`
	Key  string `json:"key"`
	Msg  string `json:"msg"`
}

// Worker runs cases.
type Worker struct {
	id      int
	c       *Check
	cs      string
	shm     []byte
	evals   int64
	trans   int64
	states  map[uint64]struct{}
	viols   []Viol
	known   map[string]Viol
	counts  map[string]int64
	samples []string
	nontriv int64
	local   any // per worker scratch data of the check
	started int64
	quiet   bool
}

var hseed = maphash.MakeSeed()

// State records the canonical form of a state or outcome reached.
func (w *Worker) State(parts ...string) {
	if len(w.states) > 4_000_000 {
		return
	}
	var h maphash.Hash
	h.SetSeed(hseed)
	for _, p := range parts {
		h.WriteString(p)
		h.WriteByte(0)
	}
	w.states[h.Sum64()] = struct{}{}
}

// Trans counts transitions (operations executed on the real code).
func (w *Worker) Trans(n int) { w.trans += int64(n) }

// Count counts named events, for the evidence.
func (w *Worker) Count(name string) { w.counts[name]++ }

// Fail reports a violation on the current case.
func (w *Worker) Fail(format string, args ...any) { w.fail("", format, args...) }

// FailKey reports a violation identified by key, that may be a known finding.
func (w *Worker) FailKey(key, format string, args ...any) { w.fail(key, format, args...) }

func (w *Worker) fail(key, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	if key != "" && knownFindings[w.c.id+" "+key] {
		if old, ok := w.known[key]; !ok || less(w.cs, old.Case) {
			w.known[key] = Viol{w.cs, key, msg}
		}
		return
	}
	v := Viol{w.cs, key, msg}
	if len(w.viols) < 200 {
		w.viols = append(w.viols, v)
	} else {
		worst := 0
		for i := range w.viols {
			if less(w.viols[worst].Case, w.viols[i].Case) {
				worst = i
			}
		}
		if less(v.Case, w.viols[worst].Case) {
			w.viols[worst] = v
		}
	}
	atomic.AddInt64(&nviol, 1)
}

var nviol int64

func less(a, b string) bool {
	if m, n := caseSize(a), caseSize(b); m != n {
		return m < n
	}
	return a < b
}

const slot = 1 << 16

func (w *Worker) exec(cs string) {
	w.cs = cs
	if w.shm != nil {
		n := copy(w.shm[12:slot], cs)
		binary.LittleEndian.PutUint32(w.shm[8:], uint32(n))
		binary.LittleEndian.PutUint32(w.shm[0:], 1)
	}
	atomic.StoreInt64(&w.started, time.Now().UnixNano())
	func() {
		defer func() {
			if e := recover(); e != nil {
				w.Fail("panic: %v\n%s", e, shortStack())
			}
		}()
		w.c.run(w, expand(cs))
	}()
	atomic.StoreInt64(&w.started, 0)
	w.evals++
	if w.shm != nil {
		binary.LittleEndian.PutUint32(w.shm[0:], 0)
	}
}

func shortStack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

// try runs f and returns the panic message, or "".
func try(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v", e)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// result is what a working process hands to its supervisor.
type result struct {
	Evals, Trans, States, Cases int64
	Exhaustive                  bool
	Phases                      []phase
	Viols                       []Viol
	Known                       []Viol
	Counts                      map[string]int64
	Samples                     []string
	Wall                        float64
}

func newWorker(c *Check, i int) *Worker {
	return &Worker{id: i, c: c, states: map[uint64]struct{}{}, known: map[string]Viol{}, counts: map[string]int64{}}
}

func workers(c *Check) int {
	if c.serial {
		return 1
	}
	n := runtime.NumCPU()
	if s := os.Getenv("ZZ_WORKERS"); s != "" {
		if k, err := strconv.Atoi(s); err == nil && k > 0 {
			n = k
		}
	}
	if n > 8 {
		n = 8
	}
	return n
}

// work explores all cases of a check and writes the result.
func work(c *Check, tier, shmPath, outPath string) {
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(20 << 30)
	log.SetOutput(io.Discard)
	t0 := time.Now()
	lim := 700 * time.Second
	if tier == "thorough" {
		lim = 2400 * time.Second
	}
	if s := os.Getenv("ZZ_DEADLINE"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			lim = time.Duration(n) * time.Second
		}
	}
	g := &Gen{tier: tier, thorough: tier == "thorough", out: make(chan []string, 64), deadline: t0.Add(lim), only: os.Getenv("ZZ_PHASE"), heavy: c.heavy}

	nw := workers(c)
	f, err := os.OpenFile(shmPath, os.O_RDWR|os.O_CREATE, 0o644)
	chk(err)
	chk(f.Truncate(int64(nw * slot)))
	mem, err := syscall.Mmap(int(f.Fd()), 0, nw*slot, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	chk(err)

	stopEarly := os.Getenv("ZZ_STOP") != "" // while trying many changes of the code
	ws := make([]*Worker, nw)
	var wg sync.WaitGroup
	for i := range ws {
		w := newWorker(c, i)
		w.shm = mem[i*slot : (i+1)*slot]
		ws[i] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for batch := range g.out {
				for _, cs := range batch {
					w.exec(cs)
					if len(w.viols) > 0 && stopEarly {
						g.stop.Store(true)
					}
					if w.evals&(w.evals-1) == 0 && len(w.samples) < 24 {
						w.samples = append(w.samples, cs)
					}
				}
			}
		}()
	}
	stop := make(chan bool)
	go func() { // monitor: hangs and memory
		for {
			select {
			case <-stop:
				return
			case <-time.After(250 * time.Millisecond):
			}
			now := time.Now().UnixNano()
			for _, w := range ws {
				s := atomic.LoadInt64(&w.started)
				if s != 0 && now-s > int64(c.caseLimit()) {
					fmt.Fprintln(os.Stderr, "zz: case running for too long")
					os.Exit(77)
				}
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 14<<30 {
				fmt.Fprintln(os.Stderr, "zz: memory exhausted")
				os.Exit(78)
			}
		}
	}()
	c.gen(g)
	g.flush()
	close(g.out)
	wg.Wait()
	close(stop)

	r := result{Exhaustive: !g.capped, Cases: g.n, Phases: g.phases, Counts: map[string]int64{}}
	states := map[uint64]struct{}{}
	known := map[string]Viol{}
	for _, w := range ws {
		r.Evals += w.evals
		r.Trans += w.trans
		for k := range w.states {
			states[k] = struct{}{}
		}
		for k, v := range w.counts {
			r.Counts[k] += v
		}
		r.Viols = append(r.Viols, w.viols...)
		for k, v := range w.known {
			if old, ok := known[k]; !ok || less(v.Case, old.Case) {
				known[k] = v
			}
		}
		r.Samples = append(r.Samples, w.samples...)
	}
	for _, v := range known {
		r.Known = append(r.Known, v)
	}
	sort.Slice(r.Known, func(i, j int) bool { return r.Known[i].Key < r.Known[j].Key })
	sort.Slice(r.Viols, func(i, j int) bool { return less(r.Viols[i].Case, r.Viols[j].Case) })
	if len(r.Viols) > 200 {
		r.Viols = r.Viols[:200]
	}
	r.States = int64(len(states))
	if r.Counts["not-finished-in-time"] > 0 {
		r.Exhaustive = false
	}
	sort.Slice(r.Samples, func(i, j int) bool { return less(r.Samples[i], r.Samples[j]) })
	if n := len(r.Samples); n > 12 {
		s := make([]string, 0, 12)
		for i := 0; i < 12; i++ {
			s = append(s, r.Samples[i*(n-1)/11])
		}
		r.Samples = s
	}
	r.Wall = time.Since(t0).Seconds()
	raw, err := json.Marshal(r)
	chk(err)
	chk(os.WriteFile(outPath, raw, 0o644))
}

func (c *Check) caseLimit() time.Duration {
	if c.limit != 0 {
		return c.limit
	}
	return 40 * time.Second
}

func chk(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "zz: internal error:", err)
		os.Exit(2)
	}
}

var knownFindings = map[string]bool{}

// loadKnown reads lines "finding: property=<id> key=<key> <text>".
func loadKnown(path string) {
	raw, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(raw), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "finding:" {
			continue
		}
		p := strings.TrimPrefix(f[1], "property=")
		k := strings.TrimPrefix(f[2], "key=")
		knownFindings[p+" "+k] = true
	}
}

// one runs a single case; it exits with 1 if it violates the property.
func one(c *Check, caseFile string) {
	debug.SetMaxStack(256 << 20)
	log.SetOutput(io.Discard)
	raw, err := os.ReadFile(caseFile)
	chk(err)
	w := newWorker(c, 0)
	done := make(chan bool)
	go func() {
		t0 := time.Now()
		for {
			select {
			case <-done:
				return
			case <-time.After(250 * time.Millisecond):
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 8<<30 || time.Since(t0) > c.caseLimit() {
				os.Exit(79)
			}
		}
	}()
	w.exec(string(raw))
	close(done)
	for _, v := range w.viols {
		fmt.Println(v.Msg)
	}
	for _, v := range w.known {
		fmt.Println("known finding", v.Key, v.Msg)
	}
	if len(w.viols) > 0 {
		os.Exit(1)
	}
}

// The code under test runs in child processes of an unprivileged user that
// owns nothing but one scratch folder, whatever it tries to write or remove.
const nobody = 65534

// scratch makes the folder of the child processes.
func scratch(verif string) string {
	tmp, err := os.MkdirTemp("", "zz")
	chk(err)
	if raw, err := os.ReadFile(filepath.Join(verif, "known_findings.txt")); err == nil {
		chk(os.WriteFile(filepath.Join(tmp, "known_findings.txt"), raw, 0o644))
	}
	if os.Geteuid() == 0 {
		chk(os.Chmod(filepath.Dir(tmp), 0o711))
		chk(os.Chown(tmp, nobody, nobody))
	}
	return tmp
}

func child(self, tmp string, args ...string) *exec.Cmd {
	cmd := exec.Command(self, args...)
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "VERIF_DIR="+tmp, "TMPDIR="+tmp, "HOME="+tmp)
	if os.Geteuid() == 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	return cmd
}

// supervise runs a check in a child process and reports.
func supervise(c *Check, tier, verif string) int {
	t0 := time.Now()
	self, err := os.Executable()
	chk(err)
	tmp := scratch(verif)
	defer os.RemoveAll(tmp)
	shm := filepath.Join(tmp, "shm")
	out := filepath.Join(tmp, "out")
	tail := &tailBuf{}
	explore := func(env ...string) error {
		os.Remove(out)
		cmd := child(self, tmp, "work", c.id, tier, shm, out)
		cmd.Env = append(cmd.Env, env...)
		cmd.Stderr = tail
		cmd.Stdout = tail
		return cmd.Run()
	}
	runErr := explore()
	alone := false
again:
	var r result
	if raw, err := os.ReadFile(out); err == nil && runErr == nil {
		chk(json.Unmarshal(raw, &r))
	} else {
		fmt.Printf("zz: exploration process ended abnormally: %v\n%s\n", runErr, tail.String())
		// find the culprit among the cases in flight.
		mem, _ := os.ReadFile(shm)
		found := false
		var mu sync.Mutex
		var wg sync.WaitGroup
		for i := 0; (i+1)*slot <= len(mem); i++ {
			s := mem[i*slot : (i+1)*slot]
			if binary.LittleEndian.Uint32(s) != 1 {
				continue
			}
			n := binary.LittleEndian.Uint32(s[8:])
			cs := string(s[12 : 12+n])
			cf := filepath.Join(tmp, fmt.Sprintf("case%d", i))
			chk(os.WriteFile(cf, []byte(cs), 0o644))
			wg.Add(1)
			go func() {
				defer wg.Done()
				b := &tailBuf{}
				one := child(self, tmp, "one", c.id, cf)
				one.Stdout, one.Stderr = b, b
				err := one.Run()
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					found = true
					r.Viols = append(r.Viols, Viol{Case: cs, Msg: fmt.Sprintf("the case ends the process: %v\n%s", err, firstLines(b.String(), 12))})
				}
			}()
		}
		wg.Wait()
		sort.Slice(r.Viols, func(i, j int) bool { return less(r.Viols[i].Case, r.Viols[j].Case) })
		if !found && !alone {
			// calls at the same time disturb each other (see C15): one at a time
			fmt.Println("zz: no single case reproduces it, exploring with one worker")
			alone = true
			left := 820 - int(time.Since(t0).Seconds())
			if tier == "thorough" {
				left = 3000
			}
			runErr = explore("ZZ_WORKERS=1", fmt.Sprintf("ZZ_DEADLINE=%d", max(left, 30)))
			goto again
		}
		if !found {
			fmt.Println("zz: no single case reproduces it")
			return 2
		}
		r.Wall = time.Since(t0).Seconds()
	}
	return report(c, tier, verif, &r, time.Since(t0).Seconds(), self, tmp)
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

type tailBuf struct {
	head, tail bytes.Buffer
}

func (b *tailBuf) Write(p []byte) (int, error) {
	if b.head.Len() < 8192 {
		b.head.Write(p)
	} else {
		b.tail.Write(p)
		if b.tail.Len() > 1<<16 {
			t := append([]byte{}, b.tail.Bytes()[b.tail.Len()-8192:]...)
			b.tail.Reset()
			b.tail.Write(t)
		}
	}
	return len(p), nil
}

func (b *tailBuf) String() string { return b.head.String() + b.tail.String() }

func report(c *Check, tier, verif string, r *result, wall float64, self, tmp string) int {
	level := c.level
	if level == "" {
		level = "model_checking"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := []string{}
	for _, s := range r.Samples {
		q := strconv.QuoteToASCII(s)
		if len(q) > 300 {
			q = q[:300] + "..."
		}
		samples = append(samples, q)
	}
	if len(samples) == 0 {
		samples = append(samples, "(none)")
	}
	cov := map[string]any{
		"evaluations":                   r.Evals,
		"distinct_nontrivial":           r.States,
		"states":                        r.States,
		"transitions":                   r.Trans,
		"traces_validated_against_impl": r.Evals,
		"samples":                       samples,
		"rule":                          c.rule,
		"state_rule":                    c.stateRule,
		"exhaustive":                    r.Exhaustive,
		"phases":                        r.Phases,
		"outcomes":                      r.Counts,
	}
	nv := len(r.Viols)
	ev := map[string]any{
		"property": c.id, "tier": tier, "seed": seed, "level": level,
		"coverage": cov, "wall_s": wall, "violations": nv,
		"assumptions": append([]string{}, c.assumptions...),
	}
	raw, err := json.MarshalIndent(ev, "", " ")
	chk(err)
	chk(os.MkdirAll(filepath.Join(verif, "evidence"), 0o755))
	chk(os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), append(raw, '\n'), 0o644))

	fmt.Printf("%s %s: %d executions on the real code, %d states, %d transitions, exhaustive=%v, %.1fs\n",
		c.id, tier, r.Evals, r.States, r.Trans, r.Exhaustive, wall)
	for _, p := range r.Phases {
		fmt.Printf("  %-40s %d\n", p.Name, p.Cases)
	}
	for _, k := range sortedKeys(r.Counts) {
		fmt.Printf("  outcome %-32s %d\n", k, r.Counts[k])
	}
	for _, v := range r.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (e.g. case %q)\n", c.id, v.Key, firstLines(v.Msg, 1), v.Case)
	}
	if nv == 0 {
		return 0
	}
	v := r.Viols[0]
	dir := filepath.Join(verif, "replays")
	chk(os.MkdirAll(dir, 0o755))
	name := filepath.Join(dir, c.id+".json")
	cf := filepath.Join(tmp, "case")
	chk(os.WriteFile(cf, []byte(v.Case), 0o644))
	var again atomic.Int32
	var reruns sync.WaitGroup
	for i := 0; i < 3; i++ {
		reruns.Add(1)
		go func() {
			defer reruns.Done()
			one := child(self, tmp, "one", c.id, cf)
			if one.Run() != nil {
				again.Add(1)
			}
		}()
	}
	reruns.Wait()
	rep := map[string]any{
		"property": c.id, "case": strconv.QuoteToASCII(v.Case), "message": v.Msg, "key": v.Key,
		"reproduced": fmt.Sprintf("%d of 3 times in a fresh process", again.Load()),
		"how":        fmt.Sprintf("bash /verif/check.sh replay %s", name),
		"others":     otherViols(r.Viols),
	}
	raw, err = json.MarshalIndent(rep, "", " ")
	chk(err)
	chk(os.WriteFile(name, append(raw, '\n'), 0o644))
	fmt.Printf("case: %q\n%s\n(reproduced %d of 3 times in a fresh process; %d violating cases kept)\n", v.Case, v.Msg, again.Load(), nv)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, name)
	return 1
}

func otherViols(vs []Viol) []string {
	var out []string
	for i, v := range vs {
		if i > 0 && i < 12 {
			out = append(out, fmt.Sprintf("%q: %s", v.Case, firstLines(v.Msg, 3)))
		}
	}
	return out
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: zz check|work|one|replay ...")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	loadKnown(filepath.Join(verif, "known_findings.txt"))
	switch os.Args[1] {
	case "check": // check ID TIER
		c := checks[os.Args[2]]
		if c == nil {
			fmt.Fprintln(os.Stderr, "zz: unknown property", os.Args[2])
			os.Exit(2)
		}
		os.Exit(supervise(c, os.Args[3], verif))
	case "work": // work ID TIER SHM OUT
		work(checks[os.Args[2]], os.Args[3], os.Args[4], os.Args[5])
	case "one": // one ID CASEFILE
		one(checks[os.Args[2]], os.Args[3])
	case "sub": // sub NAME ARGS: helper processes of checks
		subprocess(os.Args[2], os.Args[3:])
	case "replay": // replay FILE
		raw, err := os.ReadFile(os.Args[2])
		chk(err)
		var rep struct{ Property, Case string }
		chk(json.Unmarshal(raw, &rep))
		cs, err := strconv.Unquote(rep.Case)
		chk(err)
		tmp := scratch(verif)
		cf := filepath.Join(tmp, "case")
		chk(os.WriteFile(cf, []byte(cs), 0o644))
		self, err := os.Executable()
		chk(err)
		cmd := child(self, tmp, "one", rep.Property, cf)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		err = cmd.Run()
		os.RemoveAll(tmp)
		if err != nil {
			fmt.Println("the case violates", rep.Property, "-", err)
			os.Exit(1)
		}
		fmt.Println("the case does not violate", rep.Property)
	default:
		os.Exit(2)
	}
}

var subs = map[string]func(args []string){}

func subprocess(name string, args []string) {
	if f := subs[name]; f != nil {
		f(args)
		return
	}
	os.Exit(2)
}
