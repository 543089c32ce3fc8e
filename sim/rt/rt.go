// Package rt is the runtime of the deterministic simulator. Code under test
// is instrumented to call Y before every statement; tasks of the simulation
// are goroutines of which exactly one is released at a time, and which one,
// and for how many preemption points, is drawn from the run's Choices.
//
// Functions that touch scheduler state from task goroutines are marked
// go:norace, and the hand-over between goroutines is hidden from the race
// detector (RaceDisable): in a -race build the scheduler adds no
// happens-before edges of its own, so that accesses which are ordered only by
// the simulated schedule are still reported as data races.
package rt

import (
	"fmt"
	"runtime/debug"
	"sync/atomic"
	"time"
)

// MaxSites bounds the number of instrumented sites for which coverage is kept.
const MaxSites = 1 << 14

const (
	stReady = iota
	stBlocked
	stDone
)

// longRun is the number of preemption points after which a task is made to
// yield in any case.
const longRun = 100000

// tightLoop is the same for a task that does not leave a few statements.
const tightLoop = 1000

const forever = int64(1) << 62

// Waiter tells whether a blocked task can go on.
type Waiter interface {
	Ready(mode int) bool
}

// Task is one simulated thread of control.
type Task struct {
	sim    *Sim
	id     int
	name   string
	resume chan struct{}
	state  int
	budget int
	w      Waiter
	wmode  int
	wakeAt int64
	steps  int64
	run    int64 // since it was scheduled
	spin   bool  // made to yield: it may be waiting in a loop
	near   [4]int
	nearN  int
	nearI  int
	spun   uint
	body   func()

	Panic interface{} // what the task died of, if it did
	Stack string
}

// Sim is one simulated execution.
type Sim struct {
	C        *Choices
	tasks    []*Task
	born     int // tasks so far
	ended    int // of those in tasks
	parked   chan struct{}
	cur      *Task
	last     *Task
	now      int64
	moved    int64 // steps when the clock last advanced
	seq      int64
	steps    int64
	maxSteps int64
	slices   []int
	joinAddr int32
	chans    chanTab
	alone    *Task // only this task and those started after it asked (aloneN) run
	aloneN   int
	crowd    bool // it had to wait for others all the same

	Switches int64
	Hash     uint64 // hash of the schedule: (task, site) at every switch
	EvHash   uint64 // hash of everything observed
	Hung     bool
	Cut      bool // ended by CutRun
	Deadlock bool
	FatalErr string
	Log      []string
	LogOn    bool
}

var active *Sim
var runs int64

// SiteHit records which instrumented sites were executed.
var SiteHit [MaxSites]bool

// slice-length tables: index 0 is always "run until the task blocks or ends".
var sliceTables = [][]int{
	{0, 1, 2, 3, 4, 6, 9, 14},
	{0, 1, 1, 2, 2, 3, 3, 4},
	{0, 0, 0, 5, 10, 20, 40, 80},
	{0, 0, 0, 0, 0, 0, 3, 17, 60, 200, 500},
	{0, 7, 15, 30, 60, 120, 250},
}

// New starts a simulation. Exactly one can be active at a time.
func New(c *Choices, maxSteps int64) *Sim {
	s := &Sim{C: c, parked: make(chan struct{}), maxSteps: maxSteps}
	s.slices = sliceTables[c.Choose(len(sliceTables))]
	s.Hash, s.EvHash = 14695981039346656037, 14695981039346656037
	active = s
	runs += 1 << 40
	return s
}

// Close ends the simulation.
func (s *Sim) Close() {
	s.cur = nil
	active = nil
}

// Spawn adds a task. It may be called before Run and from a task.
//
//go:norace
func (s *Sim) Spawn(name string, body func()) *Task {
	t := &Task{sim: s, id: s.born, name: name, resume: make(chan struct{}), wakeAt: forever, body: body}
	s.born++
	s.tasks = push(s.tasks, t)
	go t.main()
	return t
}

// push is append without the race detector noticing.
//
//go:norace
func push[T any](l []T, v T) []T {
	n := len(l)
	if n == cap(l) {
		m := make([]T, n, 2*n+8)
		for i := range l {
			m[i] = l[i]
		}
		l = m
	}
	l = l[:n+1]
	l[n] = v
	return l
}

func (t *Task) main() {
	raceDisable()
	<-t.resume
	raceEnable()
	defer t.exit()
	t.body()
}

func (t *Task) exit() {
	if r := recover(); r != nil {
		t.setPanic(r)
	}
	t.finish()
}

//go:norace
func (t *Task) setPanic(r interface{}) {
	t.Panic = r
	t.Stack = string(debug.Stack())
}

//go:norace
func (t *Task) finish() {
	raceReleaseMerge(&t.sim.joinAddr)
	t.state, t.body = stDone, nil
	t.sim.ended++
	raceDisable()
	t.sim.parked <- struct{}{}
	raceEnable()
}

//go:norace
func (t *Task) pause() {
	raceDisable()
	t.sim.parked <- struct{}{}
	<-t.resume
	raceEnable()
}

// Y is the preemption point the instrumentation inserts.
//
//go:norace
func Y(site int) {
	if uint(site) < MaxSites {
		SiteHit[site] = true
	}
	s := active
	if s == nil {
		return
	}
	t := s.cur
	if t == nil {
		return
	}
	s.steps++
	t.steps++
	t.run++
	if n := &t.near; n[0] == site || n[1] == site || n[2] == site || n[3] == site {
		t.nearN++
	} else {
		n[t.nearI&3] = site
		t.nearI++
		t.nearN, t.spun = 0, 0
	}
	if t.run >= longRun || t.nearN >= tightLoop>>t.spun {
		t.nearN = 0
		if t.spun < 3 {
			t.spun++
		}
		// A task that goes on and on may be waiting in a loop for another one.
		t.spin = true
		s.Switches++
		t.pause()
	}
	if t.budget > 0 {
		t.budget--
		if t.budget == 0 {
			s.Hash = (s.Hash ^ uint64(site+1)) * 1099511628211
			s.Switches++
			t.spin = t.spun > 0 // still in that loop
			t.pause()
		}
	}
	if (s.steps > s.maxSteps || atomic.LoadUint32(&cutRun) != 0) && !s.Hung {
		s.Cut = s.steps <= s.maxSteps
		s.Hung = true
		t.pause() // never resumed
	}
}

var cutRun uint32

// CutRun ends the run at its next preemption point, without a judgement.
func CutRun() { atomic.StoreUint32(&cutRun, 1) }

// KeepRun takes CutRun back.
func KeepRun() { atomic.StoreUint32(&cutRun, 0) }

// Gosched precedes a call of runtime.Gosched in the code under test: the task
// waits for another one to do something.
//
//go:norace
func Gosched() {
	Y(-1)
	s := active
	if s == nil || s.cur == nil {
		return
	}
	s.cur.spin = true
	s.Switches++
	s.cur.pause()
}

// V is a preemption point between computing a value and storing it.
func V[T any](site int, v T) T {
	Y(site)
	return v
}

// Fatal is an error the Go runtime does not let anybody recover from.
//
//go:norace
func Fatal(msg string) {
	s := active
	if s == nil || s.cur == nil {
		panic(msg)
	}
	s.FatalErr = msg
	s.cur.pause() // never resumed
}

// TimeSleep, TimeNow and TimeSince stand for those of package time.
//
//go:norace
func TimeSleep(d time.Duration) {
	if Active() {
		active.Sleep(int64(d / time.Microsecond))
	}
}

//go:norace
func TimeNow() time.Time {
	t := time.Unix(1000000000, 0)
	if s := active; s != nil {
		t = t.Add(time.Duration(s.now) * time.Microsecond)
	}
	return t
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// Alone runs f while only the current task and the goroutines f starts are
// scheduled. It returns false if f had to wait for somebody else.
//
//go:norace
func Alone(f func()) bool {
	s := active
	if s == nil || s.cur == nil || s.alone != nil {
		f()
		return false
	}
	s.alone, s.aloneN, s.crowd = s.cur, s.born, false
	s.cur.budget = 0
	defer s.endAlone()
	f()
	return !s.crowd
}

//go:norace
func (s *Sim) endAlone() { s.alone = nil }

// Go is what a go statement in the code under test becomes.
//
//go:norace
func Go(f func()) {
	s := active
	if s == nil || s.cur == nil {
		go f()
		return
	}
	s.Spawn("go", f)
	Y(-1)
}

// Active tells whether a task of a simulation is running.
//
//go:norace
func Active() bool { return active != nil && active.cur != nil }

// Block parks the current task until w is ready. It returns false when there
// is no simulation (the caller then has nobody to wait for).
//
//go:norace
func Block(w Waiter, mode int) bool {
	s := active
	if s == nil || s.cur == nil {
		return false
	}
	t := s.cur
	t.w, t.wmode, t.state = w, mode, stBlocked
	s.Hash = (s.Hash ^ 0xB10C) * 1099511628211
	s.Switches++
	t.pause()
	return true
}

// Sleep parks the current task for d units of simulated time.
//
//go:norace
func (s *Sim) Sleep(d int64) {
	t := s.cur
	if d <= 0 {
		Y(-1)
		return
	}
	t.w, t.state, t.wakeAt = nil, stBlocked, s.now+d
	t.pause()
}

// BlockUntil parks the current task until w is ready or the simulated clock
// reaches at.
//
//go:norace
func (s *Sim) BlockUntil(w Waiter, mode int, at int64) {
	t := s.cur
	t.w, t.wmode, t.state, t.wakeAt = w, mode, stBlocked, at
	t.pause()
}

// Now is the simulated time.
//
//go:norace
func (s *Sim) Now() int64 { return s.now }

// Seq returns the next global event number.
//
//go:norace
func (s *Sim) Seq() int64 {
	s.seq++
	return s.seq
}

// Progress changes as long as something happens in this process. It is read
// by a watchdog only.
//
//go:norace
func Progress() int64 {
	n := runs
	if s := active; s != nil {
		n += s.steps
	}
	return n
}

// Steps is the number of preemption points passed.
func (s *Sim) Steps() int64 { return s.steps }

// CurID is the id of the running task, or -1.
//
//go:norace
func (s *Sim) CurID() int {
	if s.cur == nil {
		return -1
	}
	return s.cur.id
}

// Tasks returns all tasks.
func (s *Sim) Tasks() []*Task { return s.tasks }

// Waiting is the number of goroutines that the library started and that have
// not ended.
func (s *Sim) Waiting() (n int) {
	for _, t := range s.tasks {
		if t.name == "go" && t.state != stDone {
			n++
		}
	}
	return
}

// Name of the task.
func (t *Task) Name() string { return t.name }

// Done tells whether the task has ended.
func (t *Task) Done() bool { return t.state == stDone }

// Observe folds an observed event into the event hash and, when logging is
// on, into the log.
func (s *Sim) Observe(format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	h := s.EvHash
	for i := 0; i < len(msg); i++ {
		h ^= uint64(msg[i])
		h *= 1099511628211
	}
	s.EvHash = h
	if s.LogOn {
		who := "-"
		if s.cur != nil {
			who = s.cur.name
		}
		s.Log = append(s.Log, fmt.Sprintf("t=%dus step=%d %s: %s", s.now, s.steps, who, msg))
	}
}

// Logf only logs (the message is not built unless logging is on).
func (s *Sim) Logf(format string, args ...interface{}) {
	if s.LogOn {
		who := "-"
		if s.cur != nil {
			who = s.cur.name
		}
		s.Log = append(s.Log, fmt.Sprintf("t=%dus step=%d %s: %s", s.now, s.steps, who, fmt.Sprintf(format, args...)))
	}
}

func (t *Task) ready() bool {
	switch t.state {
	case stReady:
		return true
	case stBlocked:
		if t.wakeAt <= t.sim.now {
			return true
		}
		return t.w != nil && t.w.Ready(t.wmode)
	}
	return false
}

// forget removes the goroutines of the library that have ended from the list.
//
//go:norace
func (s *Sim) forget() {
	var l []*Task
	s.ended = 0
	for _, t := range s.tasks {
		if t.state == stDone && t.name == "go" && t.Panic == nil {
			continue
		}
		l = push(l, t)
	}
	s.tasks = l
}

// Run schedules the tasks until all have ended, or none can go on (Deadlock),
// or the step budget is used up (Hung).
//
//go:norace
func (s *Sim) Run() {
	var run []*Task
	for {
		if s.ended > 64 && 2*s.ended > len(s.tasks) {
			s.forget()
		}
		run = run[:0]
		alive, spinning := false, false
		next := forever
		// the task that ran last comes first: choice 0 continues it
		alone := s.alone
		if s.crowd {
			alone = nil
		}
		if s.last != nil && !s.last.spin && (alone == nil || s.last == alone || s.last.id >= s.aloneN) && s.last.ready() {
			run = push(run, s.last)
		}
		for _, t := range s.tasks {
			if t.state == stDone {
				continue
			}
			alive = true
			if alone != nil && t != alone && t.id < s.aloneN {
				continue
			}
			switch {
			case t.spin:
				spinning = true
			case t.ready():
				if t != s.last {
					run = push(run, t)
				}
			case t.state == stBlocked && t.wakeAt < next:
				next = t.wakeAt
			}
		}
		if !alive {
			raceAcquire(&s.joinAddr)
			return
		}
		if s.Hung || s.FatalErr != "" {
			return
		}
		if len(run) > 0 && next != forever && s.steps-s.moved > 20*longRun {
			// all that happens may be waiting for a sleeper
			s.now, s.moved = next, s.steps
			continue
		}
		if len(run) == 0 && alone != nil && next == forever && !spinning {
			s.crowd = true
			continue
		}
		if len(run) == 0 {
			if next == forever && !spinning {
				// goroutines the library keeps waiting for more work are no harm
				for _, t := range s.tasks {
					if t.state != stDone && t.name != "go" {
						s.Deadlock = true
					}
				}
				if !s.Deadlock {
					raceAcquire(&s.joinAddr)
				}
				return
			}
			if next != forever {
				s.now, s.moved = next, s.steps
			}
			for _, t := range s.tasks {
				t.spin = false // what they wait for may have come
			}
			continue
		}
		t := run[s.C.Choose(len(run))]
		t.state, t.w, t.wakeAt = stReady, nil, forever
		t.budget, t.run = 0, 0
		if len(run) > 1 || len(s.tasks) == 1 && alone == nil {
			t.budget = s.slices[s.C.Choose(len(s.slices))]
		}
		if len(s.tasks) == 1 {
			t.budget = 0
		}
		s.Hash = (s.Hash ^ uint64(t.id+0x1000)) * 1099511628211
		s.last, s.cur = t, t
		if s.LogOn {
			s.Log = append(s.Log, fmt.Sprintf("t=%dus step=%d schedule %s budget=%d", s.now, s.steps, t.name, t.budget))
		}
		raceDisable()
		t.resume <- struct{}{}
		<-s.parked
		raceEnable()
		s.cur = nil
		if !t.spin {
			for _, t := range s.tasks {
				t.spin = false
			}
		}
	}
}
