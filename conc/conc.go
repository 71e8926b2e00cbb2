package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/internal/zzsched"
)

// Concurrent calls are the calls of histories (hops) and the following ones,
// that ask for the font collections.
func hfonts(name string, f func() *ttf.Fonts) hop {
	return hop{"fonts " + name, func() (func() string, func()) {
		var a, b *ttf.Fonts
		var full bool
		var shape string
		p := try(func() {
			a = f()
			full = a != nil && a.Default != nil && a.Rm != nil && a.It != nil && a.Bf != nil && a.BfIt != nil
			if full {
				shape = fmt.Sprint(a.Rm.NumGlyphs(), a.It.NumGlyphs(), a.Bf.NumGlyphs(), a.BfIt.NumGlyphs(), a.Default == a.Rm)
			}
			b = f()
		})
		fontsSeen.Lock()
		fontsSeen.m[name] = append(fontsSeen.m[name], a, b)
		fontsSeen.Unlock()
		return func() string {
			fontsSeen.Lock()
			defer fontsSeen.Unlock()
			same := true
			for _, x := range fontsSeen.m[name] {
				if x != a {
					same = false
				}
			}
			return fmt.Sprint(p, " complete: ", full, " the same everywhere: ", same, " ", shape)
		}, func() {}
	}}
}

var fontsSeen = struct {
	sync.Mutex
	m map[string][]*ttf.Fonts
}{m: map[string][]*ttf.Fonts{}}

var cops = sync.OnceValue(func() []hop {
	l := []hop{
		hfonts("lm", lm.Fonts), hfonts("liberation", liberation.Fonts),
	}
	names := map[string]bool{}
	for _, h := range hops() {
		if names[h.name] {
			continue
		}
		names[h.name] = true
		switch {
		case h.name == "old objects" || h.name == "backend made earlier": // share canvases and backends
			continue
		case strings.HasPrefix(h.name, "boxes 3"), strings.HasPrefix(h.name, "panicking font"), h.name == `typeset $\frac{1}{ 10 72 fonts1`:
			continue
		}
		l = append(l, h)
	}
	return l
})

type concOut struct {
	Schedules, Steps, Switches int64
	Free                       int64
	Viol                       string
	Next                       []zzsched.Switch `json:",omitempty"` // switches that may follow
}

var concBase map[int]string

// concRun runs calls as threads under a schedule.
func concRun(ops []int, s []zzsched.Switch) (zzsched.Result, string) {
	shows := make([]func() string, len(ops))
	var threads []func()
	for t, i := range ops {
		t, h := t, cops()[i]
		threads = append(threads, func() { shows[t], _ = h.run() })
	}
	races := runtime.RaceErrors()
	r := zzsched.Run(threads, s)
	switch {
	case r.Deadlock:
		return r, "deadlock: no goroutine can go on"
	case r.Stuck:
		return r, "the goroutines do not end"
	}
	if n := runtime.RaceErrors(); n != races {
		return r, "data race (see the report of the race detector)"
	}
	for t, i := range ops {
		if got, want := shows[t](), concBase[i]; got != want {
			return r, fmt.Sprintf("the result of %q\n%s\nis not the one of the same call alone\n%s", cops()[i].name, clip(got, 700), clip(want, 700))
		}
	}
	return r, ""
}

func opNames(ops []int) string {
	var l []string
	for _, i := range ops {
		l = append(l, strconv.Quote(cops()[i].name))
	}
	return strings.Join(l, " and ")
}

func loadBase(dir string, ops []int) {
	concBase = map[int]string{}
	for _, i := range ops {
		raw, err := os.ReadFile(fmt.Sprintf("%s/%d", dir, i))
		chk(err)
		concBase[i] = string(raw)
	}
}

func atois(s string) (l []int) {
	for _, f := range strings.Split(s, ",") {
		i, err := strconv.Atoi(f)
		chk(err)
		l = append(l, i)
	}
	return
}

// limits of an exploration
type concLim struct {
	bound   int // preemptions
	allOcc  int // visits of a plain statement at which the first preemption is made
	syncOcc int // the same for statements with shared variables and synchronisations
}

// eligible lists the steps of a trace after from at which to preempt.
func eligible(trace []zzsched.Point, from, all, shared int) (l []int) {
	type loc struct {
		id   int32
		th   int8
		kind byte
	}
	seen := map[loc]int{}
	for i, p := range trace {
		k := loc{p.ID, p.Thread, p.Kind}
		lim := all
		if p.Kind == 'g' {
			lim = shared
		} else if p.Kind == 's' {
			lim = shared * 4
		}
		if seen[k] >= lim {
			continue
		}
		seen[k]++
		if i > from {
			l = append(l, i)
		}
	}
	return l
}

// after lists the switches that may extend a schedule.
func after(n int, lim concLim, s []zzsched.Switch) (l []zzsched.Switch) {
	if len(s) == lim.bound {
		return nil
	}
	from, all := -1, lim.allOcc
	if len(s) > 0 {
		from = s[len(s)-1].Step
		all = 0
	}
	trace := zzsched.Trace()
	for _, step := range eligible(trace, from, all, lim.syncOcc) {
		for to := 0; to < n; to++ {
			if to != int(trace[step].Thread) {
				l = append(l, zzsched.Switch{Step: step, To: to})
			}
		}
	}
	return l
}

// explore runs all schedules; run returns the switches that may follow, and
// whether to stop.
func explore(run func(s []zzsched.Switch) ([]zzsched.Switch, bool)) {
	var rec func(s []zzsched.Switch) bool
	rec = func(s []zzsched.Switch) bool {
		l, stop := run(s)
		if stop {
			return true
		}
		for _, x := range l {
			if rec(append(s[:len(s):len(s)], x)) {
				return true
			}
		}
		return false
	}
	rec(nil)
}

func init() {
	subs["conc"] = func(args []string) {
		var out concOut
		finish := func() {
			raw, err := json.Marshal(out)
			chk(err)
			fmt.Println(string(raw))
			os.Exit(0)
		}
		switch args[0] {
		case "one":
			i, _ := strconv.Atoi(args[1])
			show, _ := cops()[i].run()
			fmt.Print(show())
			os.Exit(0)
		case "warm": // DIR OPS BOUND ALL SHARED
			ops := atois(args[2])
			loadBase(args[1], ops)
			l := atois(args[3])
			lim := concLim{l[0], l[1], l[2]}
			deadline := time.Now().Add(100 * time.Second)
			for _, i := range ops { // initialise
				cops()[i].run()
			}
			explore(func(s []zzsched.Switch) ([]zzsched.Switch, bool) {
				if time.Now().After(deadline) {
					out.Free |= 1 << 40
					return nil, true
				}
				r, bad := concRun(ops, s)
				out.Schedules++
				out.Steps += int64(r.Steps)
				out.Switches += int64(r.Switches)
				if r.Free {
					out.Free++
				}
				if bad != "" {
					out.Viol = fmt.Sprintf("goroutines running %s, schedule %v: %s", opNames(ops), s, bad)
					return nil, true
				}
				return after(len(ops), lim, s), false
			})
			finish()
		case "cold": // DIR OPS BOUND,ALL,SHARED SCHEDULE
			ops := atois(args[2])
			loadBase(args[1], ops)
			var s []zzsched.Switch
			l := atois(args[3])
			if args[4] != "-" {
				chk(json.Unmarshal([]byte(args[4]), &s))
			}
			r, bad := concRun(ops, s)
			out = concOut{Schedules: 1, Steps: int64(r.Steps), Switches: int64(r.Switches), Next: after(len(ops), concLim{l[0], l[1], l[2]}, s)}
			if r.Free {
				out.Free = 1
			}
			if bad != "" {
				out.Viol = fmt.Sprintf("goroutines running %s as the first calls of the process, schedule %v: %s", opNames(ops), s, bad)
			}
			finish()
		}
	}
	register(&Check{
		id:        "C15",
		heavy:     true,
		limit:     200 * time.Second,
		rule:      "every pair of calls as two goroutines of the instrumented code under a controlled scheduler: all schedules with one preemption before a statement (first visits), with two before statements that mention shared variables or synchronise; the first calls of a process in fresh processes, up to three goroutines; every execution is watched by the race detector, to which the hand-overs are invisible, and its results are compared with those of the same calls alone",
		stateRule: "state: pair of calls explored; transition: scheduling point passed",
		assumptions: []string{
			"threads switch before statements of the packages of the repository; third-party packages run without switches, under the race detector",
			"sequentially consistent interleavings, as long as the race detector is quiet",
		},
		gen: func(g *Gen) {
			n := len(cops())
			g.Phase("first-calls")
			emit := func(bound, all, shared int, ops ...int) {
				var l []string
				for _, o := range ops {
					l = append(l, strconv.Itoa(o))
				}
				g.Emit(fmt.Sprintf("cold %s %d,%d,%d", strings.Join(l, ","), bound, all, shared))
			}
			for i := 0; i < 2; i++ {
				emit(pick(g, 2, 3), 1, 4, i, i)
				emit(2, 1, 2, i, 1-i)
				emit(pick(g, 2, 3), pick(g, 0, 1), 1, i, i, i)
			}
			// quick: one of each kind of calls
			var some []int
			for i, h := range cops() {
				for _, p := range []string{"fonts", `parse $\frac`, `parse $\foo`, "parse a", `typeset $\frac{a-b}{\sqrt{c}}$ 10 72 fonts2`, `typeset $\sum`, "render $\\sqrt{x+1}$ 11 300", `image $\sqrt{x}$ 12 72 fonts0`,
					"boxes", "metrics fonts1", "document", "panicking renderer", "panicking visitor", "kinds", "sets"} {
					if g.thorough || strings.HasPrefix(h.name, p) {
						some = append(some, i)
						break
					}
				}
			}
			for _, i := range some {
				for _, j := range some {
					emit(1, 0, pick(g, 1, 2), i, j)
				}
			}
			g.Phase("pairs")
			for a, i := range some {
				for b, j := range some {
					all := pick(g, 0, 4)
					if !g.thorough && (a == b || b == (a+1)%len(some)) {
						all = 1
					}
					g.Emit(fmt.Sprintf("warm %d,%d %d,%d,%d", i, j, 1, all, pick(g, 3, 8)))
				}
			}
			g.Phase("pairs-two-preemptions")
			for _, i := range some {
				for _, j := range some {
					g.Emit(fmt.Sprintf("warm %d,%d %d,%d,%d", i, j, 2, 0, pick(g, 1, 2)))
				}
			}
			if g.thorough {
				g.Phase("triples")
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						for k := 0; k < n; k += 3 {
							g.Emit(fmt.Sprintf("warm %d,%d,%d %d,%d,%d", i, j, k, 1, 0, 1))
						}
					}
				}
			}
		},
		run: concCase,
	})
}

var concBases = sync.OnceValue(func() string {
	dir, err := os.MkdirTemp("", "zzconc")
	chk(err)
	var wg sync.WaitGroup
	for i := range cops() {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			out, _, err := concSub("one", strconv.Itoa(i))
			if err != nil {
				out = "process: " + err.Error()
			}
			chk(os.WriteFile(fmt.Sprintf("%s/%d", dir, i), []byte(out), 0o644))
		}()
	}
	wg.Wait()
	return dir
})

func concSub(args ...string) (string, string, error) {
	self, err := os.Executable()
	chk(err)
	cmd := exec.Command(self, append([]string{"sub", "conc"}, args...)...)
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0 atexit_sleep_ms=0 halt_on_error=0 history_size=2", "GOMAXPROCS=3")
	var b, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &e
	chk(cmd.Start())
	t := time.AfterFunc(170*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	return b.String(), e.String(), err
}

func concCall(w *Worker, args ...string) (out concOut, ok bool) {
	so, se, err := concSub(args...)
	if err != nil {
		w.Fail("goroutines running %v: the process ends: %v\n%s", args, err, firstLines(se, 14))
		return out, false
	}
	if err := json.Unmarshal([]byte(so), &out); err != nil {
		w.Fail("goroutines running %v: %v %q\n%s", args, err, clip(so, 300), firstLines(se, 14))
		return out, false
	}
	w.trans += out.Steps
	w.counts["schedules"] += out.Schedules
	w.counts["context-switches"] += out.Switches
	if out.Free>>40 != 0 {
		w.Count("not-finished-in-time")
		out.Free &= 1<<40 - 1
	}
	w.counts["executions-not-controlled"] += out.Free
	if out.Viol != "" {
		w.Fail("%s\n%s", out.Viol, firstLines(raceText(se), 30))
		return out, false
	}
	return out, true
}

func raceText(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		return s[i:]
	}
	return ""
}

func concCase(w *Worker, cs string) {
	f := strings.Fields(cs)
	dir := concBases()
	switch f[0] {
	case "warm":
		if _, ok := concCall(w, "warm", dir, f[1], f[2]); !ok {
			return
		}
	case "cold":
		bad := false
		t0 := time.Now()
		explore(func(s []zzsched.Switch) ([]zzsched.Switch, bool) {
			if time.Since(t0) > 100*time.Second {
				w.Count("not-finished-in-time")
				return nil, true
			}
			arg := "-"
			if len(s) > 0 {
				raw, err := json.Marshal(s)
				chk(err)
				arg = string(raw)
			}
			out, ok := concCall(w, "cold", dir, f[1], f[2], arg)
			bad = !ok
			return out.Next, bad
		})
		if bad {
			return
		}
	}
	w.State(cs)
}
