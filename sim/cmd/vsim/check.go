package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/props"
	"verif.local/sim/rt"
)

type master struct {
	lost     []string // what could not be reproduced
	prop     *props.Prop
	tier     string
	seed     uint64
	bin      [2]string // plain, race
	scratch  string
	out      string
	evidence string
	siteFile string
	nworkers int
	start    time.Time

	runs, trivial, cut [2]int
	slow               int
	steps, switches    int64
	simTime            int64
	wall               [2]float64
	stats              *props.Stats
	sites              map[int]bool
	sched              map[uint64]bool
	distinct           map[[2]uint64]bool
	first              map[int][2]uint64
	nondet             int
	rechecked          int
	stderr             string
}

var env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "GOTRACEBACK=single")

func (m *master) run(limit float64, bin string, args ...string) (stdout []byte, stderr string, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(limit*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = env
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	if ctx.Err() != nil {
		err = ctx.Err()
	}
	s := se.String()
	if len(s) > 6000 {
		s = s[:6000]
	}
	return so.Bytes(), s, err
}

// batch runs indices 0..n-1 on the workers. It returns the violations, at most
// one per worker, the one with the least index first.
func (m *master) batch(race int, n int, limit float64) []*Replay {
	if n == 0 {
		return nil
	}
	t0 := time.Now()
	defer func() { m.wall[race] += time.Since(t0).Seconds() }()
	type ans struct {
		out   *WorkerOut
		crash *Replay
	}
	answers := make([]ans, m.nworkers)
	var wg sync.WaitGroup
	for w := 0; w < m.nworkers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			hf := filepath.Join(m.scratch, fmt.Sprintf("hash.%d.%d", race, w))
			sf := filepath.Join(m.scratch, fmt.Sprintf("status.%d.%d", race, w))
			so, se, err := m.run(limit+120, m.bin[race], "worker", "-prop", m.prop.ID, "-seed", fmt.Sprint(m.seed),
				"-first", fmt.Sprint(w), "-step", fmt.Sprint(m.nworkers), "-last", fmt.Sprint(n), "-tier", m.tier,
				"-limit", fmt.Sprint(limit), "-hashes", hf, "-status", sf)
			if err != nil {
				if err == context.DeadlineExceeded {
					die("worker %d of %s did not end in time", w, m.prop.ID)
				}
				b, _ := os.ReadFile(sf)
				if len(b) != 8 {
					die("worker %d of %s failed to start: %v\n%s", w, m.prop.ID, err, se)
				}
				i := int(binary.LittleEndian.Uint64(b))
				r := &Replay{Property: m.prop.ID, Tier: m.tier, Race: race == 1, Class: "crash", Seed: m.seed, Index: i,
					Msg: fmt.Sprintf("the process died: %v\n%s", err, head(se, 40)), RunSeed: runSeed(m.seed, m.prop.ID, i, race == 1)}
				for j := w; j < i; j += m.nworkers {
					r.Warm = append(r.Warm, runSeed(m.seed, m.prop.ID, j, race == 1))
				}
				answers[w].crash = r
				return
			}
			o := &WorkerOut{}
			if err := json.Unmarshal(so, o); err != nil {
				die("worker %d of %s: %v\n%s", w, m.prop.ID, err, head(string(so), 20))
			}
			if o.Fail != nil && o.Fail.Class == "race" {
				o.Fail.Msg += "\n" + head(se, 60)
			}
			answers[w].out = o
		}()
	}
	wg.Wait()
	var fails []*Replay
	for w := 0; w < m.nworkers; w++ {
		a := answers[w]
		if a.crash != nil {
			fails = append(fails, a.crash)
			continue
		}
		o := a.out
		if o.Harness != "" {
			die("harness error: %s", o.Harness)
		}
		if o.Fail != nil {
			fails = append(fails, o.Fail)
		}
		m.runs[race] += o.Runs
		m.trivial[race] += o.Trivial
		m.slow += o.Slow
		if o.CutShort {
			m.cut[race]++
		}
		m.steps += o.Steps
		m.switches += o.Switches
		m.simTime += o.SimTime
		m.stats.Add(o.Stats)
		for _, s := range o.Sites {
			m.sites[s] = true
		}
		hb, _ := os.ReadFile(filepath.Join(m.scratch, fmt.Sprintf("hash.%d.%d", race, w)))
		for ; len(hb) >= 25; hb = hb[25:] {
			i := int(binary.LittleEndian.Uint64(hb))
			h := [2]uint64{binary.LittleEndian.Uint64(hb[8:]), binary.LittleEndian.Uint64(hb[16:])}
			m.sched[h[0]] = true
			if hb[24] == 0 {
				m.distinct[h] = true
			}
			if race == 0 && i < 64 {
				m.first[i] = h
			}
		}
	}
	sort.Slice(fails, func(i, j int) bool { return fails[i].Index < fails[j].Index })
	return fails
}

func head(s string, n int) string {
	lines := strings.Split(s, "\n")
	if len(lines) > n {
		lines = append(lines[:n], "...")
	}
	return strings.Join(lines, "\n")
}

// recheck runs the first executions again, in one process, and compares.
func (m *master) recheck() {
	n := min(64, m.prop.Quick)
	hf := filepath.Join(m.scratch, "hash.again")
	_, se, err := m.run(120, m.bin[0], "worker", "-prop", m.prop.ID, "-seed", fmt.Sprint(m.seed), "-first", "0", "-step", "1",
		"-last", fmt.Sprint(n), "-tier", m.tier, "-limit", "60", "-hashes", hf)
	if err != nil {
		die("recheck: %v\n%s", err, se)
	}
	hb, _ := os.ReadFile(hf)
	for ; len(hb) >= 25; hb = hb[25:] {
		i := int(binary.LittleEndian.Uint64(hb))
		h := [2]uint64{binary.LittleEndian.Uint64(hb[8:]), binary.LittleEndian.Uint64(hb[16:])}
		if old, ok := m.first[i]; ok {
			m.rechecked++
			if old != h {
				m.nondet++
			}
		}
	}
}

// try executes a replay in a fresh process; crash counts as class "crash".
func (m *master) try(r *Replay, logOn bool) (*ExecOut, string) {
	f := filepath.Join(m.scratch, "try.json")
	writeJSON(f, r)
	bin := m.bin[0]
	if r.Race {
		bin = m.bin[1]
	}
	args := []string{"exec", "-file", f}
	if logOn {
		args = append(args, "-log")
	}
	so, se, err := m.run(180, bin, args...)
	if err == context.DeadlineExceeded {
		return &ExecOut{}, ""
	}
	if err != nil {
		return &ExecOut{Fail: &props.Failure{Class: "crash", Msg: fmt.Sprintf("the process died: %v\n%s", err, head(se, 40))}}, se
	}
	o := &ExecOut{}
	if json.Unmarshal(so, o) != nil {
		return &ExecOut{}, se
	}
	return o, se
}

func writeJSON(file string, v interface{}) {
	data, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(file, data, 0o644); err != nil {
		die("%v", err)
	}
}

// report reproduces, minimises and writes a violation; it returns false if it
// was not one after all.
func (m *master) report(r *Replay) (string, bool) {
	warm := r.Warm
	r.Warm = nil
	class := r.Class
	o, _ := m.try(r, false)
	same := func(o *ExecOut) bool { return o.Fail != nil && o.Fail.Class == class }
	ok := same(o)
	if !ok { // perhaps it needs what earlier runs left behind
		r.Warm = warm
		r.Choices = nil
		if o, _ = m.try(r, false); same(o) {
			ok = true
			r.Note = "needs the state that earlier runs leave in the process"
			for len(r.Warm) > 0 { // the shortest tail of them
				half := *r
				half.Warm = r.Warm[(len(r.Warm)+1)/2:]
				if o2, _ := m.try(&half, false); !same(o2) {
					break
				}
				r.Warm = half.Warm
			}
		}
	}
	if !ok {
		for n := 0; n < 4 && !ok; n++ {
			o, _ = m.try(r, false)
			ok = same(o)
			if class == "stuck" {
				break
			}
		}
		if !ok && (class == "crash" || strings.Contains(class, "out of proportion")) {
			m.lost = append(m.lost, fmt.Sprintf("%s: a %s in run %d was not reproduced: %s", m.prop.ID, class, r.Index, r.Msg))
			return "", false
		}
		if !ok {
			r.Note = "observed once; the code under test did not repeat it from the same choices"
		}
	}
	if ok && len(r.Warm) == 0 && class != "crash" && class != "stuck" {
		if r.Choices == nil {
			r.Choices = o.Choices
		}
		long := r.Choices
		n0 := len(long)
		if class != "race" {
			f := filepath.Join(m.scratch, "shrink.json")
			writeJSON(f, r)
			so, _, err := m.run(60, m.bin[btoi(r.Race)], "shrink", "-file", f, "-limit", "20")
			var c []uint32
			if err == nil && json.Unmarshal(so, &c) == nil {
				r.Choices = c
				if r.Choices == nil {
					r.Choices = []uint32{}
				}
			}
		} else {
			deadline := time.Now().Add(25 * time.Second)
			r.Choices = minimise(long, func(c []uint32) bool {
				if time.Now().After(deadline) {
					return false
				}
				q := *r
				q.Choices = c
				if q.Choices == nil {
					q.Choices = []uint32{}
				}
				o, _ := m.try(&q, false)
				return same(o)
			})
		}
		if o, _ := m.try(r, false); !same(o) {
			r.Choices = long
		}
		r.Note = fmt.Sprintf("minimised from %d to %d choices", n0, len(r.Choices))
	}
	if o, se := m.try(r, true); o.Fail != nil {
		r.EvHash, r.Trace = o.EvHash, o.Log
		r.Msg = o.Fail.Msg
		if class == "race" {
			r.Msg += "\n" + head(se, 60)
		}
		if len(r.Trace) > 400 {
			r.Trace = append(r.Trace[:400:400], "...")
		}
	}
	r.Words = rt.Dict
	os.MkdirAll(m.out, 0o755)
	file := filepath.Join(m.out, fmt.Sprintf("%s-seed%d-run%d.json", m.prop.ID, m.seed, r.Index))
	writeJSON(file, r)
	return file, true
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	race := fs.String("race", "", "binary with the race detector")
	sites := fs.String("sites", "", "")
	out := fs.String("out", "", "")
	evidence := fs.String("evidence", "", "")
	scratch := fs.String("scratch", "", "")
	workers := fs.Int("workers", 8, "")
	scale := fs.Float64("scale", 1, "")
	limit := fs.Float64("limit", 0, "wall clock limit of a batch in seconds")
	fs.Parse(args)
	p := props.Find(*prop)
	if p == nil {
		die("unknown property %s", *prop)
	}
	self, _ := os.Executable()
	m := &master{prop: p, tier: *tier, seed: *seed, bin: [2]string{self, *race}, scratch: *scratch, out: *out,
		evidence: *evidence, siteFile: *sites, nworkers: *workers, start: time.Now(), stats: props.NewStats(),
		sites: map[int]bool{}, sched: map[uint64]bool{}, distinct: map[[2]uint64]bool{}, first: map[int][2]uint64{}}
	n, nr := p.Quick, p.QuickRace
	lim := 90.0
	if *tier == "thorough" {
		n, nr = p.Thorough, p.ThoroughRace
		lim = 540
	}
	if *limit > 0 {
		lim = *limit
	}
	n, nr = int(float64(n)*(*scale)), int(float64(nr)*(*scale))
	if *race == "" {
		nr = 0
	}
	fails := m.batch(0, n, lim)
	if len(fails) == 0 && nr > 0 {
		fails = m.batch(1, nr, lim/2)
	}
	code := 0
	file := ""
	for _, fail := range fails {
		var bad bool
		if file, bad = m.report(fail); bad {
			code = 1
			fmt.Printf("%s: %s\n", fail.Class, head(fail.Msg, 30))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
			break
		}
	}
	if code == 0 && len(m.lost) > 0 {
		die("%s", strings.Join(m.lost, "\n"))
	}
	if code == 0 {
		m.recheck()
	}
	m.writeEvidence(code, file)
	if code == 0 {
		fmt.Printf("%s held: %d simulated runs (%d distinct non-trivial), %d checks, %.1f s\n", p.ID,
			m.runs[0]+m.runs[1], len(m.distinct), m.stats.Checks, time.Since(m.start).Seconds())
		if m.slow > 0 {
			fmt.Printf("warning: %d runs took too long and were given up\n", m.slow)
		}
		if m.nondet > 0 {
			fmt.Printf("warning: %d of %d executions differed when repeated\n", m.nondet, m.rechecked)
		}
	}
	os.Exit(code)
}

func (m *master) siteCoverage() map[string]interface{} {
	data, err := os.ReadFile(m.siteFile)
	if err != nil {
		return nil
	}
	all, hit := map[string]int{}, map[string]int{}
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.Fields(l)
		if len(f) < 2 {
			continue
		}
		i, _ := strconv.Atoi(f[0])
		name := strings.Split(f[1], ":")[0]
		all[name]++
		if m.sites[i] {
			hit[name]++
		}
	}
	res := map[string]interface{}{}
	for k, n := range all {
		if hit[k] > 0 {
			res[k] = fmt.Sprintf("%d of %d statements", hit[k], n)
		}
	}
	return res
}

func (m *master) samples() (out []interface{}) {
	for i := 0; i < 3; i++ {
		r := &Replay{Property: m.prop.ID, Tier: m.tier, Seed: m.seed, Index: i, RunSeed: runSeed(m.seed, m.prop.ID, i, false)}
		o, _ := m.try(r, true)
		log := o.Log
		if len(log) > 40 {
			log = append(log[:40:40], fmt.Sprintf("... (%d more)", len(o.Log)-40))
		}
		out = append(out, map[string]interface{}{"run": i, "run_seed": r.RunSeed, "event_hash": o.EvHash, "log": log})
	}
	return
}

func (m *master) writeEvidence(code int, file string) {
	runs := m.runs[0] + m.runs[1]
	wall := m.wall[0] + m.wall[1]
	perHour := 0.0
	if wall > 0 {
		perHour = float64(runs) / wall * 3600
	}
	cov := map[string]interface{}{
		"evaluations":                runs,
		"distinct_nontrivial":        len(m.distinct),
		"rule":                       m.prop.Rule,
		"samples":                    m.samples(),
		"runs_plain":                 m.runs[0],
		"runs_with_race_detector":    m.runs[1],
		"runs_per_hour":              int64(perHour),
		"seeds_per_hour":             int64(perHour),
		"simulated_time_us":          m.simTime,
		"preemption_points_passed":   m.steps,
		"task_switches":              m.switches,
		"distinct_interleavings":     len(m.sched),
		"interleaving_measure":       "hash of the sequence (task, statement of the library) at every task switch",
		"oracle_comparisons":         m.stats.Checks,
		"faults_injected":            m.stats.Faults,
		"conditions_reached":         m.stats.Probes,
		"trivial_runs":               m.trivial[0] + m.trivial[1],
		"workers_stopped_by_time":    m.cut[0] + m.cut[1],
		"runs_given_up_as_too_slow":  m.slow,
		"library_statements_reached": m.siteCoverage(),
		"determinism":                fmt.Sprintf("%d executions repeated in another process and worker layout, %d differed", m.rechecked, m.nondet),
		"components_real":            "all packages of the library, rebuilt from /repo with a preemption point before every statement; package sync replaced by scheduler-controlled locks",
		"components_stub":            "network connections, peers, clock, scheduler, logger (simulated); foreign RFC 2741 peer (independent reference implementation)",
	}
	ev := map[string]interface{}{
		"property": m.prop.ID, "tier": m.tier, "seed": m.seed, "level": "exploration", "coverage": cov,
		"wall_s": time.Since(m.start).Seconds(), "violations": code,
		"assumptions": []string{
			"preemption happens between statements of the library (inside a statement only in lock operations); accesses inside one statement are covered by the race detector where it is used",
			"the reference codec and the tree model are right",
		},
	}
	if file != "" {
		cov["replay"] = file
	}
	os.MkdirAll(filepath.Dir(m.evidence), 0o755)
	writeJSON(m.evidence, ev)
}
