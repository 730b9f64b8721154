// Package explore is the stateless model checker: it runs a scenario on the real
// code under the controlled scheduler of the patched runtime, records every
// decision (which thread continues, which ready select case is taken, which
// alternative an explicit choice takes) and enumerates all decision sequences
// whose weight does not exceed a bound: switching away from a thread that could
// continue (a preemption) weighs 2, continuing with another than the first thread
// when the running one blocks weighs 1, taking another than the first ready select
// case weighs 1, and explicit choices of the driver weigh nothing.
package explore

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Scenario is one closed driver around the code under test.
type Scenario struct {
	Name string
	// Body sets up the system and starts threads with x.Go. It runs on the
	// controller and must not block.
	Body func(x *Exec)
	// The bound on the weight of a schedule per tier; a negative value skips the tier.
	Quick, Thorough int
	// Horizon is the number of steps after which scheduling becomes fair
	// round-robin; four times that is a livelock. Default 600.
	Horizon int
	// Race tells the race-detecting build to run this scenario (with RaceBound).
	Race      bool
	RaceBound int
	// Sleep is the fake time let pass when nothing is enabled (0: 1h, once).
	// NoSleep disables it.
	NoSleep bool
}

// Exec is one execution.
type Exec struct {
	S        *runtime.VerifSched
	names    map[int]string
	daemon   map[int]bool
	quiet    []func() bool // stages, run when nothing is enabled
	checks   []func()
	cleanups []func()
	fails    []string
	Steps    int
	Livelock bool
	scenario *Scenario
	dec      *decider
	finalise bool
	// Fixed suspends branching on the scheduler: threads run in the default order.
	Fixed bool
	Data     any
}

type decider struct {
	prefix  []int
	choices []int
	width   []int
	cost    []int // cost of alternatives (0 or 1) at each point
	spent   []int // preemptions before each point
	diverge bool
	pre     int
}

func (d *decider) pick(n int, cost int) int {
	i := len(d.choices)
	k := 0
	if i < len(d.prefix) {
		k = d.prefix[i]
	}
	if k >= n {
		d.diverge = true
		k = 0
	}
	d.choices = append(d.choices, k)
	d.width = append(d.width, n)
	d.cost = append(d.cost, cost)
	d.spent = append(d.spent, d.pre)
	if k > 0 {
		d.pre += cost
	}
	return k
}

// Go starts a controlled thread.
func (x *Exec) Go(name string, f func()) {
	t := x.S.VerifNewThread(f)
	x.names[t.ID] = name
}

// Daemon starts a controlled thread that may still be blocked at the end.
func (x *Exec) Daemon(name string, f func()) {
	t := x.S.VerifNewThread(f)
	x.names[t.ID] = name
	x.daemon[t.ID] = true
}

// Stage registers a function run on the controller when no thread is enabled (in order).
func (x *Exec) Stage(f func()) {
	x.quiet = append(x.quiet, func() bool { f(); return true })
}

// Check registers a function evaluated at the end of the execution.
func (x *Exec) Check(f func()) { x.checks = append(x.checks, f) }

// Cleanup registers a function run after the checks, to let blocked goroutines end.
func (x *Exec) Cleanup(f func()) { x.cleanups = append(x.cleanups, f) }

// Fail reports a violation; usable from checks, and from controlled threads.
func (x *Exec) Fail(format string, a ...any) {
	if x.finalise {
		return
	}
	x.fails = append(x.fails, fmt.Sprintf(format, a...))
}

// Ev is one observed event: what happened, to what.
type Ev struct{ K, A string }

func (e Ev) String() string {
	if e.A == "" {
		return e.K
	}
	return e.K + " " + e.A
}

// Log appends an event to the observed history. Harness bookkeeping lives in the
// history (kept by the runtime), so that it adds no happens-before edge between
// threads and no race of its own.
func Log(k string, a ...any) {
	if len(a) == 0 {
		runtime.VerifLog(Ev{K: k})
		return
	}
	runtime.VerifLog(Ev{k, strings.TrimSuffix(fmt.Sprintln(a...), "\n")})
}

// Events returns the history so far (controller only).
func (x *Exec) Events() []Ev {
	var r []Ev
	for _, v := range x.S.Log() {
		if e, ok := v.(Ev); ok {
			r = append(r, e)
		}
	}
	return r
}

// Index returns the position of the first event k a ("" matches any a), or -1.
func Index(evs []Ev, k, a string) int {
	for i, e := range evs {
		if e.K == k && (a == "" || e.A == a) {
			return i
		}
	}
	return -1
}

// Count counts the events k a ("" matches any a).
func Count(evs []Ev, k, a string) int {
	n := 0
	for _, e := range evs {
		if e.K == k && (a == "" || e.A == a) {
			n++
		}
	}
	return n
}

// Args returns the arguments of all events k, in order.
func Args(evs []Ev, k string) []string {
	var r []string
	for _, e := range evs {
		if e.K == k {
			r = append(r, e.A)
		}
	}
	return r
}

// Choose asks the explorer for one of n alternatives (controlled threads only).
func Choose(n int, tag string) int { return runtime.VerifChoose(n, tag) }

// Choose is usable from Body, stages and checks (the controller).
func (x *Exec) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	return x.dec.pick(n, 0)
}

// History returns what was logged so far.
func (x *Exec) History() []string {
	var r []string
	for _, v := range x.S.Log() {
		r = append(r, fmt.Sprint(v))
	}
	return r
}

func (x *Exec) name(t *runtime.VerifThread) string {
	if n, ok := x.names[t.ID]; ok {
		return n
	}
	p := "?"
	if t.Parent >= 0 && t.Parent < len(x.S.Threads()) {
		p = x.name(x.S.Threads()[t.Parent])
	}
	return fmt.Sprintf("%s>%d", p, t.ID)
}

// Blocked lists the threads that have not finished (daemons excluded).
func (x *Exec) Blocked() []string {
	var r []string
	for _, t := range x.S.Threads() {
		if t.State != runtime.VerifDone && t.State != runtime.VerifCrashed && !x.daemon[t.ID] {
			r = append(r, fmt.Sprintf("%s(%s)", x.name(t), blockedWhy(t)))
		}
	}
	return r
}

// Unfinished tells whether the named thread has not finished.
func (x *Exec) Unfinished(name string) bool {
	for id, n := range x.names {
		if n == name {
			return x.S.Threads()[id].State != runtime.VerifDone
		}
	}
	return false
}

func blockedWhy(t *runtime.VerifThread) string {
	switch t.State {
	case runtime.VerifMutex:
		return "waiting for a mutex"
	case runtime.VerifGated:
		return "runnable"
	}
	return t.WaitReason()
}

// Crashes lists unrecovered panics and fatal errors.
func (x *Exec) Crashes() []string {
	var r []string
	for _, t := range x.S.Threads() {
		if t.State == runtime.VerifCrashed {
			v := t.Fatal
			if t.Crash != nil {
				v = fmt.Sprint(t.Crash)
			}
			r = append(r, fmt.Sprintf("%s: %s", x.name(t), v))
		}
	}
	return r
}

// NoCrashNoDeadlock is the generic check: nothing panicked and everything ended.
func (x *Exec) NoCrashNoDeadlock() {
	for _, c := range x.Crashes() {
		x.Fail("crash in %s", c)
	}
	if b := x.Blocked(); len(b) > 0 && !x.Livelock {
		x.Fail("never completes: %s", strings.Join(b, ", "))
	}
	if x.Livelock {
		x.Fail("livelock: %s", strings.Join(x.Blocked(), ", "))
	}
}

type result struct {
	fails   []string
	hist    []string
	trace   []string
	steps   int
	diverge bool
	stuck   int
	choices []int
	width   []int
	cost    []int
	spent   []int
}

var progress atomic.Int64
var current atomic.Value // *replayInfo

type replayInfo struct {
	Property string
	Scenario string
	Choices  []int
	Fails    []string
	History  []string
	Trace    []string
}

var verbose bool

func runOnce(sc *Scenario, prefix []int) (r result) {
	progress.Add(1)
	current.Store(&replayInfo{Scenario: sc.Name, Choices: prefix})
	horizon := sc.Horizon
	if horizon == 0 {
		horizon = 600
	}
	d := &decider{prefix: prefix}
	x := &Exec{names: map[int]string{}, daemon: map[int]bool{}, scenario: sc, dec: d}
	raced := raceErrors()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if !x.finalise {
					r.fails = append(r.fails, fmt.Sprintf("harness or setup panicked: %v\n%s", e, debug.Stack()))
				}
			}
		}()
		runtime.VerifBubbleRun(func() {
			x.S = runtime.VerifStart()
			sc.Body(x)
			var last *runtime.VerifThread
			rr := 0
			slept := sc.NoSleep
		loop:
			for {
				runtime.VerifBubbleWait()
				if cr := anyCrash(x.S); cr {
					// a crash ends the process in reality
					break
				}
				var en []*runtime.VerifThread
				var ch *runtime.VerifThread
				for _, t := range x.S.Threads() {
					if t.State == runtime.VerifGated {
						if t.Kind == runtime.VerifKChoose {
							ch = t
							break
						}
						en = append(en, t)
					}
				}
				if ch != nil {
					cc := 0
					if ch.Tag == nil {
						cc = 1 // which ready select case is taken
					}
					k := 0
					if !x.Fixed || cc == 0 {
						k = d.pick(ch.N, cc)
					}
					if verbose {
						r.trace = append(r.trace, fmt.Sprintf("%-14s choose %d of %d %v", x.name(ch), k, ch.N, ch.Tag))
					}
					x.Steps++
					x.S.Release(ch, k)
					continue
				}
				if len(en) == 0 {
					if len(x.quiet) > 0 {
						q := x.quiet[0]
						x.quiet = x.quiet[1:]
						q()
						continue
					}
					if !slept {
						slept = true
						time.Sleep(time.Hour)
						continue
					}
					break loop
				}
				// order: the running thread first, then ascending ids
				cost := 1
				if last != nil {
					for i, t := range en {
						if t == last {
							copy(en[1:i+1], en[:i])
							en[0] = last
							cost = 2
							break
						}
					}
				}
				var t *runtime.VerifThread
				if x.Steps >= horizon {
					if x.Steps >= 4*horizon {
						x.Livelock = true
						break loop
					}
					sort.Slice(en, func(i, j int) bool { return en[i].ID < en[j].ID })
					rr++
					t = en[rr%len(en)]
				} else if len(en) > 1 && !x.Fixed {
					t = en[d.pick(len(en), cost)]
				} else {
					t = en[0]
				}
				x.Steps++
				if verbose {
					r.trace = append(r.trace, fmt.Sprintf("%-14s %s %s", x.name(t), kindName(t), t.PCName()))
				}
				last = t
				x.S.Release(t, 0)
			}
			for _, c := range x.checks {
				c()
			}
			r.hist = x.History()
			r.steps = x.Steps
			x.finalise = true
			// let what remains unwind
			for _, c := range x.cleanups {
				x.S.VerifNewThread(c)
			}
			for i := 0; i < 300 && len(x.cleanups) > 0 && !anyCrash(x.S); i++ {
				runtime.VerifBubbleWait()
				n := 0
				for _, t := range x.S.Threads() {
					if t.State == runtime.VerifGated {
						n++
						x.S.Release(t, 0)
						runtime.VerifBubbleWait()
					}
				}
				if n == 0 {
					break
				}
			}
			for i := 0; i < 400; i++ {
				runtime.VerifBubbleWait()
				n := 0
				for _, t := range x.S.Threads() {
					if t.State == runtime.VerifGated {
						n++
						x.S.Kill(t)
						runtime.VerifBubbleWait()
					}
				}
				if n == 0 {
					break
				}
			}
		})
	}()
	if raceErrors() > raced {
		x.fails = append(x.fails, "data race detected (report on stderr)")
	}
	for _, t := range x.S.Threads() {
		if t.State != runtime.VerifDone {
			r.stuck++
		}
	}
	r.fails = append(r.fails, x.fails...)
	r.diverge = d.diverge
	r.choices, r.width, r.cost, r.spent = d.choices, d.width, d.cost, d.spent
	return r
}

func anyCrash(s *runtime.VerifSched) bool {
	for _, t := range s.Threads() {
		if t.State == runtime.VerifCrashed {
			return true
		}
	}
	return false
}

func kindName(t *runtime.VerifThread) string {
	n := [...]string{"?", "start", "send", "recv", "select", "close", "lock", "wake", "choose", "point", "sync", "go"}[t.Kind]
	if t.Kind == runtime.VerifKUser {
		n += fmt.Sprint("(", t.Tag, ")")
	}
	return n
}

// Stats of one scenario in one shard.
type Stats struct {
	Scenario    string
	Bound       int
	Done        int // largest bound explored completely
	Executions  int
	States      int
	Steps       int
	Outcomes    map[uint64]int
	Sample      string
	Diverged    int
	Unstable    int
	Complete    bool
	Violations  []replayInfo
	WallMS      int64
	MaxPoints   int
	RaceErrors  int
	Stuck       int
	Known       map[string]int
}

type explorer struct {
	sc       *Scenario
	bound    int
	st       *Stats
	deadline time.Time
	shard    int
	of       int
	stop     bool
	maxViol  int
}

func hash(h []string) uint64 {
	f := fnv.New64a()
	for _, s := range h {
		f.Write([]byte(s))
		f.Write([]byte{0})
	}
	return f.Sum64()
}

var stuckTotal int

func (e *explorer) run(prefix []int, count bool) result {
	r := runOnce(e.sc, prefix)
	stuckTotal += r.stuck
	if !count {
		return r
	}
	e.st.Executions++
	e.st.Steps += r.steps
	e.st.States += len(r.choices) - len(prefix) + 1
	if len(r.choices) > e.st.MaxPoints {
		e.st.MaxPoints = len(r.choices)
	}
	if r.diverge {
		e.st.Diverged++
	}
	hsh := hash(r.hist)
	e.st.Outcomes[hsh]++
	if len(r.hist) > 0 && (e.st.Sample == "" || len(e.st.Outcomes) == 2) {
		e.st.Sample = strings.Join(r.hist, "; ")
	}
	r.fails = e.filterKnown(r.fails)
	if len(r.fails) > 0 && !r.diverge {
		// replay: the same decisions must fail the same way every time
		ok := true
		for i := 0; i < 4; i++ {
			r2 := runOnce(e.sc, r.choices)
			stuckTotal += r2.stuck
			if r2.diverge || (len(r2.fails) == 0 && !onlyRace(r.fails)) {
				ok = false
			}
		}
		if !ok {
			e.st.Unstable++
			fmt.Fprintf(os.Stderr, "UNSTABLE %s %v\n", e.sc.Name, r.fails)
			return r
		}
		verbose = true
		r3 := runOnce(e.sc, r.choices)
		verbose = false
		e.st.Violations = append(e.st.Violations, replayInfo{Property: *flagProp, Scenario: e.sc.Name, Choices: r.choices, Fails: r.fails, History: r.hist, Trace: r3.trace})
		if len(e.st.Violations) >= e.maxViol {
			e.stop = true
		}
	}
	if stuckTotal > 400000 {
		e.stop = true
	}
	return r
}

var known []*regexp.Regexp

func loadKnown() {
	if *flagKnown == "" {
		return
	}
	b, err := os.ReadFile(*flagKnown)
	if err != nil {
		panic(err)
	}
	var l []string
	if err := json.Unmarshal(b, &l); err != nil {
		panic(err)
	}
	for _, s := range l {
		known = append(known, regexp.MustCompile(s))
	}
}

// filterKnown drops the failures listed as known findings (matched on
// "scenario: failure") and counts them.
func (e *explorer) filterKnown(fails []string) []string {
	var out []string
next:
	for _, f := range fails {
		for _, k := range known {
			if k.MatchString(e.sc.Name + ": " + f) {
				if e.st.Known == nil {
					e.st.Known = map[string]int{}
				}
				e.st.Known[k.String()]++
				continue next
			}
		}
		out = append(out, f)
	}
	return out
}

func onlyRace(f []string) bool {
	for _, s := range f {
		if !strings.HasPrefix(s, "data race") {
			return false
		}
	}
	return true
}

func (e *explorer) alternatives(r result, from int) [][]int {
	var out [][]int
	for i := from; i < len(r.choices); i++ {
		if r.spent[i]+r.cost[i] > e.bound {
			continue
		}
		for a := 1; a < r.width[i]; a++ {
			p := make([]int, i+1)
			copy(p, r.choices[:i])
			p[i] = a
			out = append(out, p)
		}
	}
	return out
}

func (e *explorer) dfs(prefix []int) {
	if e.stop {
		return
	}
	if time.Now().After(e.deadline) {
		e.st.Complete = false
		e.stop = true
		return
	}
	r := e.run(prefix, true)
	for _, p := range e.alternatives(r, len(prefix)) {
		if e.stop {
			return
		}
		e.dfs(p)
	}
}

// explore enumerates the shard's part of the tree.
func (e *explorer) explore() {
	e.st.Complete = true
	// expand breadth-first until there are enough subtrees to share out; shard 0
	// accounts for the executions of the expansion
	queue := [][]int{nil}
	target := 0
	if e.of > 1 {
		target = e.of * 24
	}
	for len(queue) > 0 && len(queue) < target && !e.stop {
		p := queue[0]
		queue = queue[1:]
		r := e.run(p, e.shard == 0)
		if e.shard != 0 && time.Now().After(e.deadline) {
			e.st.Complete = false
			return
		}
		queue = append(queue, e.alternatives(r, len(p))...)
		if e.shard == 0 && time.Now().After(e.deadline) {
			e.st.Complete = false
			return
		}
	}
	for i, p := range queue {
		if i%e.of == e.shard {
			e.dfs(p)
		}
	}
	if e.stop && len(e.st.Violations) == 0 {
		e.st.Complete = false
	}
}

var (
	flagProp   = flag.String("prop", "", "property id")
	flagTier   = flag.String("tier", "quick", "")
	flagShard  = flag.Int("shard", 0, "")
	flagOf     = flag.Int("of", 1, "")
	flagBudget = flag.Float64("budget", 60, "seconds for the whole shard")
	flagReplay = flag.String("replay", "", "replay file")
	flagOut    = flag.String("out", "", "stats output")
	flagOnly   = flag.String("only", "", "only scenarios containing this")
	flagRace   = flag.Bool("race", false, "race build: run race scenarios")
	flagKnown  = flag.String("known", "", "file with known findings (regular expressions)")
	flagBound  = flag.Int("bound", -1, "override bound")
)

// Tier tells which tier runs.
func Tier() string { return *flagTier }

// Main explores all scenarios.
func Main(prefixes []string, scs func() []*Scenario) {
	flag.Parse()
	os.Setenv("GODEBUG", "asynctimerchan=0")
	runtime.VerifPrefixes = append([]string{"github.com/lerenn/asyncapi-codegen/", "verifmc/gen/", "main."}, prefixes...)
	runtime.VerifFixedSeed = true
	runtime.VerifMapRand = func(uint64) uint64 { return 0 }
	debug.SetGCPercent(400)
	all := scs()
	loadKnown()
	if *flagReplay != "" {
		replay(all)
		return
	}
	start := time.Now()
	end := start.Add(time.Duration(*flagBudget * float64(time.Second)))
	var list []*Scenario
	for _, s := range all {
		b := s.Quick
		if *flagTier == "thorough" {
			b = s.Thorough
		}
		if *flagRace && !s.Race || b < 0 {
			continue
		}
		if *flagOnly != "" && !strings.Contains(s.Name, *flagOnly) {
			continue
		}
		list = append(list, s)
	}
	go watchdog()
	var out []*Stats
	for i, s := range list {
		b := s.Quick
		if *flagTier == "thorough" {
			b = s.Thorough
		}
		if *flagRace {
			b = s.RaceBound
		}
		if *flagBound >= 0 {
			b = *flagBound
		}
		left := time.Until(end) / time.Duration(len(list)-i)
		if i < len(list)-1 {
			left *= 2 // scenarios are uneven; later ones get what remains
		}
		if m := time.Until(end); left > m {
			left = m
		}
		dl := time.Now().Add(left)
		t0 := time.Now()
		done := -1
		var tot *Stats
		var levels []int
		for l := b; l >= 0; l -= 2 {
			levels = append([]int{l}, levels...)
		}
		for _, bb := range levels {
			st := &Stats{Scenario: s.Name, Outcomes: map[uint64]int{}, Bound: bb}
			e := &explorer{sc: s, bound: bb, st: st, deadline: dl, shard: *flagShard, of: *flagOf, maxViol: 1}
			e.explore()
			if st.Complete {
				done = bb
			} else if tot != nil && len(st.Violations) == 0 && st.Executions < tot.Executions {
				st = tot
				st.Complete = false
			}
			tot = st
			if len(st.Violations) > 0 || !st.Complete {
				break
			}
		}
		tot.Done = done
		tot.WallMS = time.Since(t0).Milliseconds()
		tot.RaceErrors = raceErrors()
		tot.Stuck = stuckTotal
		out = append(out, tot)
		if *flagOut != "" {
			writeStats(out)
		}
		if len(tot.Violations) > 0 {
			break
		}
		if stuckTotal > 400000 {
			break
		}
	}
	writeStats(out)
}

func writeStats(out []*Stats) {
	if *flagOut != "" {
		f, err := os.Create(*flagOut)
		if err != nil {
			panic(err)
		}
		if err := json.NewEncoder(f).Encode(out); err != nil {
			panic(err)
		}
		f.Close()
		return
	}
	for _, s := range out {
		fmt.Printf("%-40s bound=%d done=%d exec=%d states=%d steps=%d outcomes=%d complete=%v diverged=%d unstable=%d viol=%d %dms maxpoints=%d stuck=%d\n", s.Scenario, s.Bound, s.Done, s.Executions, s.States, s.Steps, len(s.Outcomes), s.Complete, s.Diverged, s.Unstable, len(s.Violations), s.WallMS, s.MaxPoints, s.Stuck)
		for _, v := range s.Violations {
			fmt.Println("  FAIL", strings.Join(v.Fails, " | "))
			fmt.Println("  HIST", strings.Join(v.History, "; "))
			for _, t := range v.Trace {
				fmt.Println("     ", t)
			}
		}
	}
}

// watchdog: an execution that makes no progress for two minutes of real time is
// spinning outside of any synchronisation operation.
func watchdog() {
	last := progress.Load()
	n := 0
	for {
		time.Sleep(5 * time.Second)
		p := progress.Load()
		if p != last {
			last, n = p, 0
			continue
		}
		n++
		if n >= 24 && *flagOut != "" {
			ri := *(current.Load().(*replayInfo))
			ri.Fails = []string{"execution does not end: spinning without synchronisation for 120 s"}
			b, _ := json.Marshal([]*Stats{{Scenario: ri.Scenario, Violations: []replayInfo{ri}}})
			os.WriteFile(*flagOut, b, 0o644)
			os.Exit(0)
		}
	}
}

func replay(all []*Scenario) {
	b, err := os.ReadFile(*flagReplay)
	if err != nil {
		panic(err)
	}
	var ri replayInfo
	if err := json.Unmarshal(b, &ri); err != nil {
		panic(err)
	}
	for _, s := range all {
		if s.Name == ri.Scenario {
			verbose = true
			r := runOnce(s, ri.Choices)
			for _, t := range r.trace {
				fmt.Println("  ", t)
			}
			for _, t := range r.hist {
				fmt.Println("  observed:", t)
			}
			for _, t := range r.fails {
				fmt.Println("  FAIL:", t)
			}
			if len(r.fails) > 0 {
				os.Exit(1)
			}
			return
		}
	}
	fmt.Println("no such scenario", ri.Scenario)
	os.Exit(2)
}
