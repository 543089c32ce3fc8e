package props

import (
	"fmt"
	"runtime"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/oid"

	"verif.local/sim/gen"
	"verif.local/sim/rt"
)

// ---- C17: nothing is kept

// heap is the memory in use, without what the simulator remembers of this run.
func (r *Run) heap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc) - 4*int64(cap(r.C.Rec()))
}

// sink is a log that keeps nothing.
type sink struct{ n int }

func (s *sink) Write(msg string)                          { s.n += len(msg) }
func (s *sink) Writef(format string, args ...interface{}) { s.n += len(fmt.Sprintf(format, args...)) }

type leakWork struct {
	r     *Run
	seed  uint64
	t     *oid.Tree
	base  []uint32
	codec bool
	dbg   bool
	live  [][]uint32 // nodes of the tree that are still to be removed
	keep  int
	deep  int
}

// frame makes a PDU that was not there before, and passes it through the
// codec in one way or another.
func (w *leakWork) frame(n uint32) {
	r := w.r
	c := rt.NewSeeded(rt.Mix(w.seed, uint64(n)))
	g := gen.New(c)
	p := g.Pdu()
	gen.Unique(&p, n)
	if c.Choose(4) == 3 {
		g.Misuse(&p)
	}
	log := &sink{}
	dbg := w.dbg && c.Choose(2) == 1
	var f []byte
	var ok bool
	if dbg {
		r.Call("EncodePduDbg", func() { f, ok = agentx.EncodePduDbg(p, log) })
	} else {
		r.Call("EncodePdu", func() { f, ok = agentx.EncodePdu(p) })
	}
	if !ok || len(f) < 20 {
		return
	}
	if c.Choose(3) == 2 {
		f[c.Choose(len(f))] ^= 1 << c.Choose(8)
	}
	var q agentx.Pdu
	r.Call("decoding", func() {
		if dbg {
			if q, ok = agentx.DecodePduHeaderDbg(f[:20], log); ok {
				ok = agentx.DecodePduPayloadDbg(&q, f[20:], log)
			}
		} else if q, ok = agentx.DecodePduHeader(f[:20]); ok {
			ok = agentx.DecodePduPayload(&q, f[20:])
		}
	})
	if ok && c.Choose(8) == 7 {
		r.Call("String", func() { log.n += len(q.String(0)) })
	}
}

// node adds a node that was not there before, and removes an older one.
func (w *leakWork) node(n uint32) {
	r := w.r
	id := append(dupOid(w.base), n)
	for i := uint32(0); i < n%uint32(w.deep); i++ {
		id = append(id, i)
	}
	r.Call("AddNode", func() { w.t.AddNode(id).Data = make([]byte, 100) })
	w.live = append(w.live, id)
	r.Call("lookup", func() {
		w.t.GetNode(id)
		w.t.GetNode(append(id, 5))
		w.t.GetNextNode(id, nil, n%2 == 0)
	})
	if n%64 == 5 {
		w.fault(n)
	}
	if len(w.live) > w.keep {
		w.remove()
	}
}

func (w *leakWork) remove() {
	id := w.live[0]
	copy(w.live, w.live[1:])
	w.live[len(w.live)-1] = nil
	w.live = w.live[:len(w.live)-1]
	w.r.Call("RemoveNode", func() { w.t.RemoveNode(id[:len(w.base)+1]) })
}

// fault is a visitor that fails.
func (w *leakWork) fault(n uint32) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(visitorPanic); !ok {
				panic(x)
			}
			w.r.Fault("visitor panics")
		}
	}()
	w.r.Call("ForRangeLeaves", func() {
		w.t.ForRangeLeaves(func([]uint32, *oid.Node) { panic(visitorPanic{}) })
	})
}

// setupC17 measures the memory in use during a long history.
func setupC17(r *Run) func() {
	off := r.C.Choose(len(subidPool))
	w := &leakWork{r: r, seed: uint64(r.C.Word()), t: oid.NewTree(), dbg: r.C.Choose(2) == 1}
	w.base = []uint32{1, 3, 6, 1, 4, 1, subidPool[off]}[r.C.Choose(7):]
	w.deep, w.keep = 1+r.C.Choose(4), 1+r.C.Choose(20)
	w.t.AddNode(append(dupOid(w.base[:1]), 0xFFFFFFF0)).Data = "stays"
	if r.C.Choose(3) == 2 {
		return w.drop()
	}
	mode, n, workers := r.C.Choose(3), 1200+100*r.C.Choose(12), 1+r.C.Choose(2)
	if mode != 1 { // frames cost more
		n = n/2 + 300
	}
	stay := r.C.Choose(2) == 1 // the youngest nodes stay from series to series
	const phases = 4
	var at [phases + 1]int64
	var goers [phases + 1]int
	running, phase := 0, 0
	next := uint32(0)
	r.S.Spawn("meter", func() {
		for ; phase <= phases; phase++ {
			running = workers
			for i := 0; i < workers; i++ {
				r.S.Spawn("worker", func() {
					defer func() { running-- }()
					for k := 0; k < n/workers; k++ {
						next++
						m := next
						rt.Alone(func() {
							if mode != 1 {
								w.frame(m)
							}
							if mode != 0 {
								w.node(m)
							}
						})
						if m%50 == 0 {
							r.S.Sleep(1)
						}
					}
				})
			}
			for running > 0 {
				r.S.Sleep(10)
			}
			for len(w.live) > 0 && !stay {
				w.remove()
			}
			rt.Alone(func() { at[phase] = r.heap() })
			goers[phase] = r.S.Waiting()
		}
	})
	return func() {
		least := int64(1 << 62)
		leastG := 1 << 30
		for i := 0; i < phases; i++ {
			least = min(least, at[i+1]-at[i])
			leastG = min(leastG, goers[i+1]-goers[i])
		}
		r.Checked()
		r.Probe([]string{"frames", "nodes", "frames and nodes"}[mode])
		if least > int64(32<<10+8*n) {
			r.Fail("memory kept", "every series of %d calls (%s) leaves %d KB or more in use that nobody holds", n, []string{"of the codec", "of the tree", "of codec and tree"}[mode], least>>14<<4)
		}
		if leastG > 10+n/20 {
			r.Fail("goroutines kept", "every series of %d calls leaves %d or more goroutines", n, leastG)
		}
		r.S.Observe("%d %d", mode, n)
		runtime.KeepAlive(w)
	}
}

// drop builds many nodes and removes them again.
func (w *leakWork) drop() func() {
	r := w.r
	m := 3000 + 500*r.C.Choose(8)
	width := []int{1, 3, 40, m}[r.C.Choose(4)]
	top := r.C.Choose(2) == 1
	order := r.C.Choose(5)
	stand := 0 // every so many nodes stay
	if width >= 40 && order != 0 && order != 4 && r.C.Choose(2) == 1 {
		stand = 60 + r.C.Choose(100)
	}
	id := func(i int) []uint32 {
		a := dupOid(w.base)
		if !top {
			a = append(a, 9)
		}
		switch width {
		case 1: // branches of a hundred
			a = append(a, uint32(i/100))
			for j := 0; j <= i%100; j++ {
				a = append(a, 7)
			}
		case m:
			a = append(a, uint32(i))
		default:
			a = append(a, uint32(i/width), uint32(i%width))
		}
		return a
	}
	var before, full, after int64
	r.S.Spawn("owner", func() {
		rt.Alone(func() { before = r.heap() })
		r.Call("AddNode", func() {
			for i := 0; i < m; i++ {
				w.t.AddNode(id(i)).Data = make([]byte, 100)
			}
		})
		rt.Alone(func() { full = r.heap() })
		rm := func(a []uint32) {
			r.Call("RemoveNode", func() { w.t.RemoveNode(a) })
		}
		leaf := func(i int) {
			if stand == 0 || i%stand != 0 {
				rm(id(i))
			}
		}
		switch order {
		case 0:
			r.Call("Clear", func() { w.t.Clear() })
		case 1: // from the left
			for i := 0; i < m; i++ {
				leaf(i)
			}
		case 2: // from the right
			for i := m - 1; i >= 0; i-- {
				leaf(i)
			}
		case 3: // crosswise
			k := 1237
			for gcd(k, m) != 1 {
				k++
			}
			for i := 0; i < m; i++ {
				leaf(i * k % m)
			}
		case 4: // all at once
			rm(w.base)
		}
		// branches without leaves go, too
		if order != 0 && order != 4 && stand == 0 {
			rm(w.base)
		}
		r.Call("lookup", func() {
			w.t.GetNode(id(1))
			w.t.GetNextNode(id(1), nil, true)
		})
		w.fault(0)
		rt.Alone(func() { after = r.heap() })
	})
	return func() {
		r.Checked()
		r.Probe("many nodes removed")
		left := int64(0)
		if stand != 0 { // what stays: leaves, and branches of 40
			left = int64(600*(m/stand+1) + 300*(m/width+1))
			r.Probe("some nodes stay")
		}
		r.Fault("many nodes removed")
		if full-before > int64(100*m) && after-before > int64(64<<10+24*m)+left {
			r.Fail("memory kept", "%d nodes were added and removed; %d of the %d KB they took are still in use", m, (after-before)>>14<<4, (full-before)>>14<<4)
		}
		r.S.Observe("%d %d %d", m, width, order)
		runtime.KeepAlive(w)
	}
}
