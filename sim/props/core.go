// Package props holds the scenarios: for each property a workload driven
// through the public API of the library, the faults, and the oracle.
package props

import (
	"fmt"
	"runtime/debug"
	"strings"

	"verif.local/sim/gen"
	"verif.local/sim/rt"
)

// Failure is a violated property.
type Failure struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Stats is what a batch of runs covered.
type Stats struct {
	Faults map[string]int64 `json:"faults"`
	Probes map[string]int64 `json:"probes"`
	Checks int64            `json:"checks"`
}

// NewStats returns empty statistics.
func NewStats() *Stats {
	return &Stats{Faults: map[string]int64{}, Probes: map[string]int64{}}
}

// Add adds o to s.
func (s *Stats) Add(o *Stats) {
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
	s.Checks += o.Checks
}

// Run is one simulated execution.
type Run struct {
	C    *rt.Choices
	S    *rt.Sim
	G    *gen.G
	St   *Stats
	Race bool // the binary has the race detector: scripts only
	Deep bool // thorough tier

	fail    *Failure
	trivial bool
}

type stopRun struct{}

// Fail records the violation and ends the task.
func (r *Run) Fail(class, format string, args ...interface{}) {
	if r.fail == nil {
		r.fail = &Failure{class, fmt.Sprintf(format, args...)}
	}
	panic(stopRun{})
}

// Fault counts an injected fault.
func (r *Run) Fault(kind string) {
	r.St.Faults[kind]++
	if r.S.LogOn {
		r.S.Logf("fault: %s", kind)
	}
}

// Probe counts a condition that was reached.
func (r *Run) Probe(name string) { r.St.Probes[name]++ }

// Checked counts a comparison with the oracle.
func (r *Run) Checked() { r.St.Checks++ }

// Call calls into the library; a panic that escapes is a violation.
func (r *Run) Call(what string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stopRun); ok {
				panic(x)
			}
			if _, ok := x.(visitorPanic); ok {
				panic(x)
			}
			r.Fail("panic", "%s panicked: %v\n%s", what, x, stack())
		}
	}()
	f()
}

type visitorPanic struct{}

func stack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "mygosnmp") || strings.Contains(l, "/lib/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) == 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Prop is a property with its scenario.
type Prop struct {
	ID       string
	MaxSteps int64
	// Setup generates the workload and spawns the tasks; it returns the check
	// to make after the run.
	Setup func(r *Run) (finish func())
	// Runs in the quick and thorough tier, with the plain and the race binary.
	Quick, Thorough         int
	QuickRace, ThoroughRace int
	Rule                    string // what makes a run non-trivial
}

// Result of one run.
type Result struct {
	Fail     *Failure
	Harness  string // a panic in the harness itself
	Hash     uint64
	EvHash   uint64
	Steps    int64
	Switches int64
	SimTime  int64
	Tasks    int
	Trivial  bool
	Cut      bool // took too long to judge
	Log      []string
}

// Execute runs one simulation.
func Execute(p *Prop, c *rt.Choices, st *Stats, deep, logOn bool) (res Result) {
	s := rt.New(c, p.MaxSteps)
	s.LogOn = logOn
	r := &Run{C: c, S: s, St: st, Race: rt.RaceBuild, Deep: deep}
	races := rt.RaceErrors()
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stopRun); !ok {
				res.Harness = fmt.Sprintf("%v\n%s", x, debug.Stack())
			}
		}
		s.Close()
		if n := rt.RaceErrors() - races; n > 0 && r.fail == nil {
			r.fail = &Failure{"race", fmt.Sprintf("the race detector reported %d unsynchronised access(es) in this run", n)}
		}
		res.Fail, res.Hash, res.EvHash = r.fail, s.Hash, s.EvHash
		res.Steps, res.Switches, res.SimTime, res.Tasks = s.Steps(), s.Switches, s.Now(), len(s.Tasks())
		res.Trivial = r.trivial
		res.Log = s.Log
	}()
	r.G = gen.New(c)
	finish := p.Setup(r)
	s.Run()
	for _, t := range s.Tasks() {
		if t.Panic != nil {
			if _, ok := t.Panic.(stopRun); !ok && r.fail == nil {
				res.Harness = fmt.Sprintf("task %s: %v\n%s", t.Name(), t.Panic, t.Stack)
				return
			}
		}
	}
	if r.fail != nil {
		return
	}
	if s.FatalErr != "" {
		r.fail = &Failure{"fatal error", "fatal error: " + s.FatalErr}
		return
	}
	if s.Deadlock {
		r.fail = &Failure{"deadlock", "no task can go on: " + who(s)}
		return
	}
	if s.Cut {
		res.Cut = true
		return
	}
	if s.Hung {
		r.fail = &Failure{"no progress", fmt.Sprintf("not finished after %d steps: %s", s.Steps(), who(s))}
		return
	}
	if finish != nil {
		finish()
	}
	return
}

func who(s *rt.Sim) string {
	var names []string
	for _, t := range s.Tasks() {
		if !t.Done() {
			names = append(names, t.Name())
		}
	}
	return strings.Join(names, ", ") + " did not finish"
}
