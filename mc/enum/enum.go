// Package enum runs a bounded exhaustive enumeration of cases on the real code:
// every case of every section is evaluated exactly once over all shards, and the
// verdict of the harness (a comparison with a reference model) is recorded.
package enum

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Violation of one case.
type Violation struct {
	Property, Scenario string
	Fails, History     []string
}

// Stats of one section.
type Stats struct {
	Scenario    string
	Bound, Done int
	Executions  int
	States      int
	Steps       int
	Outcomes    map[uint64]int
	Sample      string
	Diverged    int
	Unstable    int
	Complete    bool
	Violations  []Violation
	MaxPoints   int
	Known       map[string]int
}

// E is the enumeration.
type E struct {
	Thorough  bool
	shard, of int
	prop      string
	n         int
	cur       *Stats
	all       []*Stats
	known     []*regexp.Regexp
	deadline  time.Time
	only      string
	progress  atomic.Int64
	current   atomic.Value
	cur1      *os.File
}

var maxViol = func() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_MAXVIOL")); err == nil {
		return n
	}
	return 3
}()

// Section starts a section; cases after it belong to it.
func (e *E) Section(name string) {
	e.cur = &Stats{Scenario: name, Complete: true, Outcomes: map[uint64]int{}}
	e.all = append(e.all, e.cur)
	e.n = 0
}

// Mine tells whether the next case belongs to this shard.
func (e *E) Mine() bool {
	e.n++
	if e.only != "" && !strings.Contains(e.cur.Scenario, e.only) {
		return false
	}
	if e.n%e.of != e.shard {
		return false
	}
	if len(e.cur.Violations) >= maxViol {
		return false
	}
	if e.n%1024 < e.of && time.Now().After(e.deadline) {
		e.cur.Complete = false
		return false
	}
	return true
}

// Did records evaluated cases, of which some are not trivial.
func (e *E) Did(n, nontrivial int, outcome uint64) {
	e.cur.Executions += n
	e.cur.States += nontrivial
	if len(e.cur.Outcomes) < 4096 {
		e.cur.Outcomes[outcome]++
	}
}

// Sample records one case of the section as an example.
func (e *E) Sample(format string, a ...any) {
	if e.cur.Sample == "" {
		e.cur.Sample = fmt.Sprintf(format, a...)
	}
}

// Fail records the violation of a case.
func (e *E) Fail(input string, format string, a ...any) {
	f := fmt.Sprintf(format, a...)
	for _, k := range e.known {
		if k.MatchString(e.cur.Scenario + ": " + input + ": " + f) {
			if e.cur.Known == nil {
				e.cur.Known = map[string]int{}
			}
			e.cur.Known[k.String()]++
			return
		}
	}
	if len(e.cur.Violations) < maxViol {
		e.cur.Violations = append(e.cur.Violations, Violation{e.prop, e.cur.Scenario, []string{f}, []string{input}})
	}
}

// Case evaluates one case: f returns the failures and whether the case is not
// trivial; a panic is a failure.
func (e *E) Case(input string, f func() (fails []string, nontrivial bool)) {
	if !e.Mine() {
		return
	}
	e.Progress(input)
	fails, nt := func() (fails []string, nt bool) {
		defer func() {
			if r := recover(); r != nil {
				fails = append(fails, fmt.Sprintf("panic: %v\n%s", r, trim(string(debug.Stack()))))
			}
		}()
		return f()
	}()
	k := 0
	if nt {
		k = 1
	}
	e.Did(1, k, 0)
	if nt {
		e.Sample("%s", input)
	}
	for _, x := range fails {
		e.Fail(input, "%s", x)
	}
}

func trim(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "gen.go") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n")
}

// Main parses the flags of the shard and writes the statistics.
func Main(f func(e *E)) {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	of := flag.Int("of", 1, "")
	budget := flag.Float64("budget", 60, "")
	out := flag.String("out", "", "")
	knownf := flag.String("known", "", "")
	only := flag.String("only", "", "")
	flag.Parse()
	if p := os.Getenv("VERIF_CPUPROFILE"); p != "" {
		w, err := os.Create(p)
		if err != nil {
			panic(err)
		}
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	e := &E{Thorough: *tier == "thorough", shard: *shard, of: *of, prop: *prop, only: *only,
		deadline: time.Now().Add(time.Duration(*budget * float64(time.Second)))}
	if *knownf != "" {
		b, err := os.ReadFile(*knownf)
		if err != nil {
			panic(err)
		}
		var l []string
		if err := json.Unmarshal(b, &l); err != nil {
			panic(err)
		}
		for _, s := range l {
			e.known = append(e.known, regexp.MustCompile(s))
		}
	}
	if *out != "" {
		e.cur1, _ = os.Create(*out + ".cur")
		debug.SetMaxStack(64 << 20)
	}
	go func() { // a case that does not end
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			if p := e.progress.Load(); p != last {
				last, since = p, time.Now()
			} else if p > 0 && time.Since(since) > 60*time.Second && e.cur != nil {
				cur, _ := e.current.Load().(string)
				e.cur.Violations = append(e.cur.Violations, Violation{e.prop, e.cur.Scenario, []string{"the case does not end"}, []string{cur}})
				e.write(*out)
				os.Exit(0)
			}
		}
	}()
	f(e)
	e.progress.Store(0)
	e.write(*out)
}

func (e *E) write(out string) {
	if out != "" {
		w, err := os.Create(out)
		if err != nil {
			panic(err)
		}
		if err := json.NewEncoder(w).Encode(e.all); err != nil {
			panic(err)
		}
		w.Close()
		return
	}
	for _, s := range e.all {
		fmt.Printf("%-40s cases=%d nontrivial=%d complete=%v viol=%d known=%v\n", s.Scenario, s.Executions, s.States, s.Complete, len(s.Violations), s.Known)
		for _, v := range s.Violations {
			fmt.Println("  FAIL", v.History, strings.Join(v.Fails, " | "))
		}
	}
}

// Progress tells the watchdog, and whoever finds the process dead, which input is evaluated.
func (e *E) Progress(input string) {
	e.progress.Add(1)
	e.current.Store(input)
	if e.cur1 != nil {
		s := e.cur.Scenario + "\x00" + input
		e.cur1.WriteAt([]byte(s+"\x00\n"), 0)
	}
}
