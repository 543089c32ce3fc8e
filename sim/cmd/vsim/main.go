// Command vsim runs the simulations of one property.
//
//	vsim check   runs the batch of a tier in worker processes, minimises and
//	             reports the first violation, and writes the evidence
//	vsim worker  runs a part of a batch (internal)
//	vsim exec    executes one replay file
//	vsim shrink  minimises a replay file in process (internal)
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/sim/props"
	"verif.local/sim/rt"
)

// Replay is a replay file: one simulated execution, preceded (only where the
// violation needs state that earlier executions left in the process) by
// others.
type Replay struct {
	Property string    `json:"property"`
	Tier     string    `json:"tier"`
	Race     bool      `json:"race_detector"`
	Class    string    `json:"class"`
	Msg      string    `json:"violation"`
	Seed     uint64    `json:"verif_seed"`
	Index    int       `json:"run_index"`
	RunSeed  uint64    `json:"run_seed"`
	Warm     []uint64  `json:"earlier_run_seeds,omitempty"`
	Choices  []uint32  `json:"choices"`         // null: those of run_seed
	Words    *rt.Words `json:"words,omitempty"` // the literals of the tree it was found in
	EvHash   string    `json:"event_hash"`
	Note     string    `json:"note,omitempty"`
	Trace    []string  `json:"trace,omitempty"`
}

// WorkerOut is what a worker reports.
type WorkerOut struct {
	Runs     int          `json:"runs"`
	Trivial  int          `json:"trivial"`
	Steps    int64        `json:"steps"`
	Switches int64        `json:"switches"`
	SimTime  int64        `json:"sim_time"`
	Stats    *props.Stats `json:"stats"`
	Sites    []int        `json:"sites"`
	Fail     *Replay      `json:"fail,omitempty"`
	Harness  string       `json:"harness,omitempty"`
	CutShort bool         `json:"cut_short"`
	Slow     int          `json:"slow"` // runs ended because they took too long
}

// ExecOut is what exec reports.
type ExecOut struct {
	Fail    *props.Failure `json:"fail"`
	Harness string         `json:"harness,omitempty"`
	EvHash  string         `json:"event_hash"`
	Choices []uint32       `json:"choices"`
	Log     []string       `json:"log,omitempty"`
}

func runSeed(seed uint64, prop string, index int, race bool) uint64 {
	k := uint64(0)
	if race {
		k = 1
	}
	return rt.Mix(seed, rt.HashString(prop), uint64(index), k)
}

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "vsim: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: vsim check|worker|exec|shrink ...")
	}
	cmd, args := os.Args[1], os.Args[2:]
	if cmd != "check" {
		catchStdout()
		// code that allocates without measure ends its own process, not the machine
		debug.SetMemoryLimit(1 << 30)
		if !rt.RaceBuild {
			lim := syscall.Rlimit{Cur: 7 << 30, Max: 7 << 30}
			syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		}
	}
	switch cmd {
	case "check":
		check(args)
	case "worker":
		worker(args)
	case "exec":
		execCmd(args)
	case "shrink":
		shrinkCmd(args)
	default:
		die("unknown command %s", cmd)
	}
}

// results is where the answers go.
var results = os.Stdout

// catchStdout lets what the library prints go to a file that C16 reads.
func catchStdout() {
	fd, err := syscall.Dup(1)
	if err != nil {
		die("%v", err)
	}
	f, err := os.CreateTemp("", "vsim-console")
	if err != nil {
		die("%v", err)
	}
	os.Remove(f.Name())
	w, _, errno := syscall.Syscall(syscall.SYS_FCNTL, f.Fd(), syscall.F_SETFL, syscall.O_APPEND)
	if errno != 0 {
		die("fcntl: %v %v", w, errno)
	}
	if err := syscall.Dup3(int(f.Fd()), 1, 0); err != nil {
		die("%v", err)
	}
	syscall.CloseOnExec(fd)
	results = os.NewFile(uintptr(fd), "results")
	props.Console = f
	fds := []int{int(f.Fd()), openFor(os.O_WRONLY, "/dev/full"), openFor(os.O_RDONLY, "/dev/null")}
	now := 0
	props.BreakConsole = func(kind int) {
		if kind != now {
			if err := syscall.Dup3(fds[kind], 1, 0); err != nil {
				die("%v", err)
			}
			now = kind
		}
	}
}

func openFor(flag int, name string) int {
	fd, err := syscall.Open(name, flag|syscall.O_CLOEXEC, 0)
	if err != nil {
		die("%s: %v", name, err)
	}
	return fd
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	first := fs.Int("first", 0, "")
	step := fs.Int("step", 1, "")
	last := fs.Int("last", 0, "")
	tier := fs.String("tier", "quick", "")
	limit := fs.Float64("limit", 60, "seconds")
	hashes := fs.String("hashes", "", "")
	status := fs.String("status", "", "")
	fs.Parse(args)
	p := props.Find(*prop)
	if p == nil {
		die("unknown property %s", *prop)
	}
	debug.SetGCPercent(300)
	start := time.Now()
	out := WorkerOut{Stats: props.NewStats()}
	var hf, sf *os.File
	var err error
	if *hashes != "" {
		if hf, err = os.Create(*hashes); err != nil {
			die("%v", err)
		}
	}
	if *status != "" {
		if sf, err = os.Create(*status); err != nil {
			die("%v", err)
		}
	}
	var cur int
	stopDog := watchdog(func(what string) {
		i := cur
		rs := runSeed(*seed, *prop, i, rt.RaceBuild)
		out.Fail = &Replay{Property: *prop, Tier: *tier, Race: rt.RaceBuild, Class: "stuck", Msg: what, Seed: *seed, Index: i, RunSeed: rs}
		json.NewEncoder(results).Encode(WorkerOut{Stats: props.NewStats(), Fail: out.Fail})
		os.Exit(0)
	})
	defer stopDog()
	patience := 20 * time.Second
	if *prop == "C04" { // which judges that
		patience = 75 * time.Second
	}
	var begun int64
	go func() {
		for {
			time.Sleep(time.Second)
			if b := atomic.LoadInt64(&begun); b != 0 && time.Now().UnixNano()-b > int64(patience) {
				atomic.CompareAndSwapInt64(&begun, b, 0)
				rt.CutRun()
			}
		}
	}()
	var hb []byte
	var st [8]byte
	for i := *first; i < *last; i += *step {
		if time.Since(start).Seconds() > *limit {
			out.CutShort = true
			break
		}
		if sf != nil {
			binary.LittleEndian.PutUint64(st[:], uint64(i))
			sf.WriteAt(st[:], 0)
		}
		cur = i
		rs := runSeed(*seed, *prop, i, rt.RaceBuild)
		c := rt.NewSeeded(rs)
		rt.KeepRun()
		atomic.StoreInt64(&begun, time.Now().UnixNano())
		res := props.Execute(p, c, out.Stats, *tier == "thorough", false)
		if res.Cut {
			out.Slow++
			debug.FreeOSMemory()
			continue
		}
		out.Runs++
		out.Steps += res.Steps
		out.Switches += res.Switches
		out.SimTime += res.SimTime
		triv := byte(0)
		if res.Trivial {
			out.Trivial++
			triv = 1
		}
		if hf != nil {
			hb = binary.LittleEndian.AppendUint64(hb, uint64(i))
			hb = binary.LittleEndian.AppendUint64(hb, res.Hash)
			hb = binary.LittleEndian.AppendUint64(hb, res.EvHash)
			hb = append(hb, triv)
			if len(hb) > 1<<16 {
				hf.Write(hb)
				hb = hb[:0]
			}
		}
		if res.Harness != "" {
			out.Harness = fmt.Sprintf("run %d (seed %d): %s", i, rs, res.Harness)
			break
		}
		if res.Fail != nil {
			r := &Replay{Property: *prop, Tier: *tier, Race: rt.RaceBuild, Class: res.Fail.Class, Msg: res.Fail.Msg,
				Seed: *seed, Index: i, RunSeed: rs, Choices: c.Rec(), EvHash: fmt.Sprintf("%016x", res.EvHash)}
			for j := *first; j < i; j += *step {
				r.Warm = append(r.Warm, runSeed(*seed, *prop, j, rt.RaceBuild))
			}
			out.Fail = r
			break
		}
	}
	if hf != nil {
		hf.Write(hb)
		hf.Close()
	}
	for i, hit := range rt.SiteHit {
		if hit {
			out.Sites = append(out.Sites, i)
		}
	}
	json.NewEncoder(results).Encode(out)
}

// watchdog calls f when the running task has made no step for a long time:
// it then waits for something the simulator does not control, for ever.
func watchdog(f func(string)) (stop func()) {
	quit := make(chan struct{})
	go func() {
		last, same := int64(-1), 0
		for {
			select {
			case <-quit:
				return
			case <-time.After(5 * time.Second):
			}
			if p := rt.Progress(); p != last {
				last, same = p, 0
			} else if same++; same >= 12 {
				f("a call into the library has made no progress for a minute")
				return
			}
		}
	}()
	return func() { close(quit) }
}

func readReplay(file string) *Replay {
	data, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	r := &Replay{}
	if err := json.Unmarshal(data, r); err != nil {
		die("%s: %v", file, err)
	}
	if r.Words != nil {
		rt.Dict = r.Words
	}
	return r
}

func execute(r *Replay, choices []uint32, logOn bool) (props.Result, []uint32) {
	p := props.Find(r.Property)
	if p == nil {
		die("unknown property %s", r.Property)
	}
	var c *rt.Choices
	if choices == nil {
		c = rt.NewSeeded(r.RunSeed)
	} else {
		c = rt.NewReplay(choices)
	}
	res := props.Execute(p, c, props.NewStats(), r.Tier == "thorough", logOn)
	return res, c.Rec()
}

func warmUp(r *Replay) {
	for _, s := range r.Warm {
		execute(&Replay{Property: r.Property, Tier: r.Tier, RunSeed: s}, nil, false)
	}
}

func execCmd(args []string) {
	fs := flag.NewFlagSet("exec", flag.ExitOnError)
	file := fs.String("file", "", "")
	logOn := fs.Bool("log", false, "")
	human := fs.Bool("human", false, "")
	fs.Parse(args)
	r := readReplay(*file)
	if r.Race != rt.RaceBuild {
		die("%s needs the other binary (race_detector=%v)", *file, r.Race)
	}
	defer watchdog(func(what string) {
		if *human {
			fmt.Fprintf(results, "class: stuck\n%s\nVIOLATION property=%s replay=%s\n", what, r.Property, *file)
			os.Exit(1)
		}
		json.NewEncoder(results).Encode(ExecOut{Fail: &props.Failure{Class: "stuck", Msg: what}})
		os.Exit(0)
	})()
	warmUp(r)
	res, rec := execute(r, r.Choices, *logOn || *human)
	out := ExecOut{Fail: res.Fail, Harness: res.Harness, EvHash: fmt.Sprintf("%016x", res.EvHash), Choices: rec, Log: res.Log}
	if !*human {
		json.NewEncoder(results).Encode(out)
		return
	}
	for _, l := range res.Log {
		fmt.Fprintln(results, l)
	}
	switch {
	case res.Harness != "":
		fmt.Fprintln(results, "HARNESS ERROR", res.Harness)
		os.Exit(2)
	case res.Fail != nil:
		fmt.Fprintf(results, "class: %s\n%s\nevent hash %s (recorded %s)\n", res.Fail.Class, res.Fail.Msg, out.EvHash, r.EvHash)
		if res.Fail.Class != r.Class {
			fmt.Fprintf(results, "(recorded class: %s)\n", r.Class)
		}
		fmt.Fprintf(results, "VIOLATION property=%s replay=%s\n", r.Property, *file)
		os.Exit(1)
	}
	fmt.Fprintln(results, "no violation")
}

// shrinkCmd minimises in process. Deadlocked tasks of candidates are left
// behind; the process ends soon.
func shrinkCmd(args []string) {
	fs := flag.NewFlagSet("shrink", flag.ExitOnError)
	file := fs.String("file", "", "")
	limit := fs.Float64("limit", 20, "seconds")
	fs.Parse(args)
	r := readReplay(*file)
	deadline := time.Now().Add(time.Duration(*limit * float64(time.Second)))
	try := func(c []uint32) ([]uint32, bool) {
		if time.Now().After(deadline) {
			return nil, false
		}
		if c == nil {
			c = []uint32{}
		}
		res, _ := execute(r, c, false)
		return nil, res.Fail != nil && res.Fail.Class == r.Class
	}
	best := minimise(r.Choices, func(c []uint32) bool { _, ok := try(c); return ok })
	json.NewEncoder(results).Encode(best)
}

// minimise shortens and simplifies a list of choices while bad holds.
func minimise(c []uint32, bad func([]uint32) bool) []uint32 {
	best := append([]uint32{}, c...)
	// a shorter prefix (the rest are zeros)
	lo, hi := 0, len(best)
	for lo < hi {
		mid := (lo + hi) / 2
		if bad(append([]uint32{}, best[:mid]...)) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	if hi < len(best) && bad(append([]uint32{}, best[:hi]...)) {
		best = append([]uint32{}, best[:hi]...)
	}
	for pass := 0; pass < 4; pass++ {
		before := len(best)
		changed := false
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				cand := append(append([]uint32{}, best[:i]...), best[i+size:]...)
				if bad(cand) {
					best = cand
					changed = true
					continue
				}
				nz := false
				for _, v := range best[i : i+size] {
					nz = nz || v != 0
				}
				if nz {
					cand = append([]uint32{}, best...)
					for k := i; k < i+size; k++ {
						cand[k] = 0
					}
					if bad(cand) {
						best = cand
						changed = true
					}
				}
				i += size
			}
		}
		for i := range best { // smaller values
			for best[i] > 1 {
				cand := append([]uint32{}, best...)
				cand[i] /= 2
				if !bad(cand) {
					break
				}
				best = cand
				changed = true
			}
		}
		for len(best) > 0 && best[len(best)-1] == 0 {
			best = best[:len(best)-1]
		}
		if !changed && len(best) == before {
			break
		}
	}
	return best
}
