package props

import (
	"fmt"
	"runtime"
	"sort"
	"strings"

	"github.com/alexispb/mygosnmp/oid"

	"verif.local/sim/rt"
)

// apply performs an operation. It touches nothing but the operation record,
// so that it can run under the race detector.
func (o *tOp) apply(r *Run, t *oid.Tree) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(visitorPanic); !ok {
				panic(x)
			}
			o.died = true
			o.ret = r.S.Seq()
			o.done = true
		}
	}()
	a, b := dupOid(o.a), dupOid(o.b)
	shared := o.sa != nil || o.sb != nil
	if shared {
		a, b = o.sa, o.sb
	}
	o.inv = r.S.Seq()
	r.Call(treeOpNames[o.kind], func() {
		switch o.kind {
		case opAdd:
			o.node = t.AddNode(a)
			if o.node != nil {
				o.node.Data = o // the data are the caller's
			}
		case opGet:
			o.node = t.GetNode(a)
		case opNext:
			o.node = t.GetNextNode(a, b, o.incl)
		case opRemove:
			o.ok = t.RemoveNode(a)
		case opClear:
			t.Clear()
		case opLeaves:
			n := 0
			t.ForRangeLeaves(func(id []uint32, node *oid.Node) {
				n++
				o.leaves = append(o.leaves, leaf{key(id), node})
				switch {
				case o.visit == 1:
					rt.Y(-1)
				case o.visit == 2:
					r.S.Sleep(30)
				case o.visit >= 10 && n == o.visit-9:
					panic(visitorPanic{})
				}
				o.raw = append(o.raw, id)
				if o.visit == 3 || o.visit == 4 {
					// the identifier is the visitor's to use
					for i := range id {
						id[i] = 0xABABABAB
					}
				}
				if o.visit == 4 {
					_ = append(id, 7, 7, 7)
				}
			})
		}
	})
	o.ret = r.S.Seq()
	o.done = true
	if !untouched(a, o.a) || !untouched(b, o.b) {
		r.Fail("argument changed", "%s: the identifiers it was given became %v and %v", o, a[:cap(a)], b[:cap(b)])
	}
	if shared {
		return
	}
	for i := range a { // arguments stay the caller's
		a[i] ^= 0x77
	}
	for i := range b {
		b[i] ^= 0x77
	}
}

func dupOid(a []uint32) []uint32 {
	if a == nil {
		return nil
	}
	return append(make([]uint32, 0, len(a)+3), a...)
}

// untouched tells whether a, made by dupOid, is still a copy of b.
func untouched(a, b []uint32) bool {
	for i, v := range a[:cap(a)] {
		if i < len(b) && v != b[i] || i >= len(b) && v != 0 {
			return false
		}
	}
	return len(a) == len(b)
}

// shareArgs lets operations with the same identifiers use the same slices.
func shareArgs(ops []*tOp) {
	pool := map[string][]uint32{}
	get := func(id []uint32) []uint32 {
		k := key(id)
		if pool[k] == nil {
			pool[k] = dupOid(id)
		}
		return pool[k]
	}
	for _, o := range ops {
		o.sa, o.sb = get(o.a), get(o.b)
	}
}

var subidPool = []uint32{1, 2, 3, 0, 4, 5, 255, 256, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}

// treeGen draws object identifiers over a small alphabet.
type treeGen struct {
	r     *Run
	alpha []uint32
	depth int
	deep  bool
	wide  int
}

func (r *Run) newTreeGen() *treeGen {
	g := &treeGen{r: r}
	n := 2 + r.C.Choose(3)
	if r.C.Choose(3) == 2 { // any of them, in any order
		for i := 0; i < n; i++ {
			g.alpha = append(g.alpha, subidPool[r.C.Choose(len(subidPool))])
		}
	} else {
		off := r.C.Choose(len(subidPool))
		for i := 0; i < n; i++ {
			g.alpha = append(g.alpha, subidPool[(off+i)%len(subidPool)])
		}
	}
	if r.C.Choose(8) == 7 { // numbers that the sources mention
		for i := range g.alpha {
			g.alpha[i] = uint32(r.C.Num())
		}
	}
	g.depth = 1 + r.C.Choose(4)
	g.deep = r.C.Choose(12) == 11
	switch r.C.Choose(17) {
	case 16:
		g.wide = max(4, r.C.NumTo(100, 8))
	case 14:
		g.wide = 12
	case 15:
		g.wide = 40
	}
	if g.wide > 0 {
		// levels with many children: the set-up adds a run of siblings
		g.alpha = append([]uint32{}, g.alpha[0])
		st := rt.NewStream(r.C.Word())
		step := []uint32{1, 2, 0x01000000, 0x0F0F0F0F}[r.C.Choose(4)]
		for i := 1; i < g.wide; i++ {
			g.alpha = append(g.alpha, g.alpha[0]+uint32(i)*step)
		}
		for i := range g.alpha {
			j := int(st.Next() % uint64(i+1))
			g.alpha[i], g.alpha[j] = g.alpha[j], g.alpha[i]
		}
		g.depth = 1 + r.C.Choose(2)
	}
	return g
}

func (g *treeGen) oid() []uint32 {
	c := g.r.C
	if g.deep && c.Choose(6) == 5 {
		var id []uint32
		n := 20 + c.Choose(3)
		switch c.Choose(5) {
		case 3:
			n = 120 + c.Choose(12)
		case 4:
			n = 1 + c.NumTo(140, 8)
		}
		for ; n > 0; n-- {
			id = append(id, g.alpha[0])
		}
		return id
	}
	n := 1 + c.Choose(g.depth)
	id := make([]uint32, 0, n)
	for i := 0; i < n; i++ {
		id = append(id, g.alpha[c.Choose(len(g.alpha))])
	}
	return id
}

func (g *treeGen) bound() []uint32 {
	switch g.r.C.Choose(6) {
	case 0:
		return nil
	case 1:
		return []uint32{}
	case 2: // just beside
		id := g.oid()
		id[len(id)-1] += []uint32{1, 0xFFFFFFFF}[g.r.C.Choose(2)]
		return id
	case 3: // just below
		return append(g.oid(), []uint32{0, g.alpha[0], 0xFFFFFFFF}[g.r.C.Choose(3)])
	default:
		return g.oid()
	}
}

func (g *treeGen) op(weights []int) *tOp {
	total := 0
	for _, w := range weights {
		total += w
	}
	n := g.r.C.Choose(total)
	kind := 0
	for n >= weights[kind] {
		n -= weights[kind]
		kind++
	}
	o := &tOp{kind: kind}
	switch kind {
	case opAdd, opGet, opRemove:
		o.a = g.oid()
		if g.r.C.Chance(1, 30) {
			o.a = nil
		}
	case opNext:
		o.a, o.b, o.incl = g.bound(), g.bound(), g.r.C.Choose(2) == 1
	case opLeaves:
		o.visit = g.r.C.Choose(3)
	}
	o.sleep = []int64{0, 0, 0, 0, 5, 40}[g.r.C.Choose(6)]
	return o
}

var treeMixes = [][]int{
	{3, 2, 3, 2, 0, 1},
	{4, 3, 0, 3, 0, 0},
	{4, 0, 4, 3, 0, 0},
	{4, 1, 1, 3, 1, 2},
	{3, 0, 3, 0, 1, 0},
	{1, 3, 3, 3, 0, 1},
}

func flat(tasks [][]*tOp) (ops []*tOp) {
	for _, t := range tasks {
		ops = append(ops, t...)
	}
	return
}

// scripts makes a filled tree and scripted tasks on it.
func (r *Run) scripts(g *treeGen, mix []int, maxTasks, maxOps, maxSetup int) (t *oid.Tree, setup []*tOp, tasks [][]*tOp) {
	t = oid.NewTree()
	for n := r.C.Choose(maxSetup + 1); n > 0; n-- {
		o := &tOp{kind: opAdd, a: g.oid(), task: -1}
		if r.C.Chance(1, 8) {
			o.kind = opRemove
		}
		o.apply(r, t)
		setup = append(setup, o)
	}
	if g.wide > 0 {
		parent := g.oid()[:1:1]
		if r.C.Choose(2) == 0 {
			parent = nil
		}
		for _, s := range g.alpha[:g.wide/2+r.C.Choose(g.wide/2)] {
			o := &tOp{kind: opAdd, a: append(append([]uint32{}, parent...), s), task: -1}
			o.apply(r, t)
			setup = append(setup, o)
		}
		r.Probe("wide tree")
	}
	nt := 2 + r.C.Choose(maxTasks-1)
	for i := 0; i < nt; i++ {
		var ops []*tOp
		for n := 1 + r.C.Choose(maxOps); n > 0; n-- {
			o := g.op(mix)
			o.task = i
			ops = append(ops, o)
		}
		tasks = append(tasks, ops)
	}
	if r.C.Choose(4) == 3 {
		shareArgs(flat(tasks))
		r.Probe("arguments shared")
	}
	return
}

func (r *Run) spawnScripts(t *oid.Tree, tasks [][]*tOp) {
	for i, ops := range tasks {
		ops := ops
		r.S.Spawn(fmt.Sprintf("task%d", i), func() {
			for _, o := range ops {
				if o.sleep > 0 {
					r.S.Sleep(o.sleep)
				}
				o.apply(r, t)
			}
		})
	}
}

// otherTree has, in some runs, tasks work on a second tree, with the
// identifiers of the first one where they are given: trees have nothing to do
// with each other. It returns the check of what happened to the second tree.
func (r *Run) otherTree(g *treeGen, ids [][]uint32) func() {
	if r.C.Choose(5) != 4 {
		return func() {}
	}
	r.Probe("second tree")
	if g == nil {
		g = r.newTreeGen()
	}
	t, setup, tasks := r.scripts(g, treeMixes[r.C.Choose(len(treeMixes))], 2, 6, 3)
	if len(ids) > 0 {
		for _, o := range flat(tasks) {
			if o.sa == nil && o.sb == nil && o.kind != opNext && r.C.Choose(2) == 1 {
				o.a = dupOid(ids[r.C.Choose(len(ids))])
			}
		}
	}
	r.spawnScripts(t, tasks)
	return func() {
		trivial := r.trivial
		fin := &tOp{kind: opLeaves, task: -2}
		fin.apply(r, t)
		r.checkHistory(setup, append(tasks, []*tOp{fin}))
		r.trivial = trivial
	}
}

func (r *Run) overlap(ops []*tOp) bool {
	for i, a := range ops {
		for _, b := range ops[i+1:] {
			if a.task != b.task && a.inv < b.ret && b.inv < a.ret && a.task >= 0 && b.task >= 0 {
				return true
			}
		}
	}
	return false
}

// checkHistory is the oracle common to the tree scenarios.
func (r *Run) checkHistory(setup []*tOp, tasks [][]*tOp) {
	ops := append(append([]*tOp{}, setup...), flat(tasks)...)
	for _, o := range ops {
		if !o.done {
			r.Fail("call lost", "%s did not return", o)
		}
		if (o.kind == opAdd || o.kind == opGet) && o.node != nil && len(o.a) > 0 && o.node.Subid != o.a[len(o.a)-1] {
			r.Fail("wrong node", "%s", o)
		}
		if o.kind == opAdd && o.node != nil && o.node.Data != interface{}(o) {
			r.Fail("data lost", "%s: the data stored in the node are not there any more", o)
		}
		for _, l := range o.leaves {
			if l.node == nil || len(l.key) == 0 || unkey(l.key[len(l.key)-4:]) != fmt.Sprint(l.node.Subid) {
				r.Fail("wrong node", "ForRangeLeaves: node does not belong to %s", unkey(l.key))
			}
		}
		r.S.Observe("%s %v %v %d", treeOpNames[o.kind], o.node != nil, o.ok, len(o.leaves))
	}
	if s := r.linearize(ops); s != "" {
		r.Fail("history not linearizable", "%s", s)
	}
	if r.overlap(ops) {
		r.Probe("operations overlapped")
	} else {
		r.trivial = true
	}
}

// ---- C10

func setupC10(r *Run) func() {
	if !r.Race && r.C.Choose(200) == 199 {
		return r.bigTree([4]int{3, 2, 3, 1})
	}
	g := r.newTreeGen()
	mix := treeMixes[r.C.Choose(len(treeMixes))]
	t, setup, tasks := r.scripts(g, mix, 4, 5, 6)
	r.spawnScripts(t, tasks)
	other := r.otherTree(g, nil)
	return func() {
		defer other()
		// afterwards the tree is asked for everything once more
		var fin []*tOp
		o := &tOp{kind: opLeaves, task: -2}
		o.apply(r, t)
		fin = append(fin, o)
		for _, a := range append(setup, flat(tasks)...) {
			if len(a.a) > 0 && len(fin) < 6 {
				o := &tOp{kind: opGet, a: a.a, task: -2}
				o.apply(r, t)
				fin = append(fin, o)
			}
		}
		r.checkHistory(setup, append(tasks, fin))
	}
}

// ---- C11: walks

type life struct {
	node     *oid.Node
	addInv   int64
	addRet   int64
	remInv   int64 // 1<<62 while it lives
	remRet   int64
	kids     []*life // nodes added below
	id       []uint32
	key      string
	stable   bool
	interior bool
	parent   bool // something was added below at some time
}

type walkWorld struct {
	r    *Run
	t    *oid.Tree
	reg  map[*oid.Node]*life
	all  []*life
	busy int
}

type regWait struct {
	w *walkWorld
	n *oid.Node
}

func (x regWait) Ready(int) bool { return x.w.reg[x.n] != nil || x.w.busy == 0 }

func (w *walkWorld) add(id []uint32, stable, interior bool) *life {
	r := w.r
	l := &life{addInv: r.S.Seq(), remInv: 1 << 62, remRet: 1 << 62, id: append([]uint32{}, id...), key: key(id), stable: stable, interior: interior}
	var n *oid.Node
	arg := dupOid(id)
	r.Call("AddNode", func() { n = w.t.AddNode(arg) })
	for i := range arg {
		arg[i] ^= 0x33
	}
	if n == nil {
		r.Fail("node not added", "AddNode(%s) returned nil although it is not in the tree", unkey(l.key))
	}
	if old := w.reg[n]; old != nil {
		r.Fail("wrong node", "AddNode(%s) returned the node of %s", unkey(l.key), unkey(old.key))
	}
	l.node = n
	l.addRet = r.S.Seq()
	w.reg[n] = l
	w.all = append(w.all, l)
	return l
}

func (w *walkWorld) remove(l *life, below []*life) {
	r := w.r
	var ok bool
	l.remInv = r.S.Seq()
	for _, b := range below {
		b.remInv = l.remInv
	}
	r.Call("RemoveNode", func() { ok = w.t.RemoveNode(dupOid(l.id)) })
	if !ok {
		r.Fail("node not removed", "RemoveNode(%s) returned false although it is in the tree", unkey(l.key))
	}
	now := r.S.Seq()
	l.remRet = now
	for _, b := range below {
		b.remRet = now
	}
}

func setupC11(r *Run) func() {
	if !r.Race && r.C.Choose(200) == 199 {
		return r.bigTree([4]int{3, 0, 6, 0})
	}
	w := &walkWorld{r: r, t: oid.NewTree(), reg: map[*oid.Node]*life{}}
	// a skeleton of interior nodes, each added explicitly
	base := []uint32{}
	if r.C.Choose(2) == 1 {
		base = []uint32{1, 3, 6, 1}
		if r.C.Choose(12) == 11 {
			for n := 100 + r.C.Choose(22); n > 0; n-- {
				base = append(base, uint32(n%3))
			}
		}
	}
	for i := range base {
		w.add(base[:i+1], false, true)
	}
	off := r.C.Choose(len(subidPool))
	sub := func(i int) uint32 { return subidPool[(off+i)%len(subidPool)] }
	var inner [][]uint32
	for i, n := 0, 1+r.C.Choose(3); i < n; i++ {
		id := append(append([]uint32{}, base...), sub(i))
		w.add(id, false, true)
		inner = append(inner, id)
		if r.C.Choose(2) == 1 {
			id2 := append(append([]uint32{}, id...), sub(r.C.Choose(3)))
			w.add(id2, false, true)
			inner = append(inner, id2)
		}
	}
	if len(base) == 0 && r.C.Choose(2) == 1 {
		inner = append(inner, nil) // leaves right below the root
	}
	taken := map[string]bool{}
	for _, l := range w.reg {
		taken[l.key] = true
	}
	fresh := func(parent []uint32) []uint32 {
		for try := 0; try < 6; try++ {
			x := subidPool[r.C.Choose(len(subidPool))]
			if r.C.Choose(16) == 15 {
				x = uint32(r.C.Num())
			}
			id := append(append([]uint32{}, parent...), x)
			if !taken[key(id)] {
				taken[key(id)] = true
				return id
			}
		}
		return nil
	}
	var stable []*life
	for n := 1 + r.C.Choose(8); n > 0; n-- {
		if id := fresh(inner[r.C.Choose(len(inner))]); id != nil {
			stable = append(stable, w.add(id, true, false))
		}
	}
	if r.C.Choose(8) == 7 { // a wide level
		for s := uint32(20); s < 60; s++ {
			id := append(append([]uint32{}, inner[0]...), s)
			if taken[key(id)] {
				continue
			}
			taken[key(id)] = true
			stable = append(stable, w.add(id, true, false))
		}
	}
	sort.Slice(stable, func(i, j int) bool { return stable[i].key < stable[j].key })
	// churners own their identifiers
	nc := r.C.Choose(4)
	for i := 0; i < nc; i++ {
		var own [][]uint32
		for n := 1 + r.C.Choose(3); n > 0; n-- {
			if id := fresh(inner[r.C.Choose(len(inner))]); id != nil {
				own = append(own, id)
			}
		}
		if len(own) == 0 {
			continue
		}
		rounds := 2 + r.C.Choose(8)
		w.busy++
		r.S.Spawn(fmt.Sprintf("churn%d", i), func() {
			defer func() { w.busy-- }()
			live := make([]*life, len(own))
			below := make([][]*life, len(own))
			for n := 0; n < rounds; n++ {
				k := r.C.Choose(len(own))
				switch {
				case live[k] == nil:
					live[k] = w.add(own[k], false, false)
					r.Fault("node appears during walks")
				case len(below[k]) == 0 && r.C.Choose(3) == 2:
					live[k].parent = true
					b := w.add(append(append([]uint32{}, own[k]...), 1+uint32(r.C.Choose(3))), false, false)
					below[k] = []*life{b}
					live[k].kids = below[k]
				default:
					w.remove(live[k], below[k])
					live[k], below[k] = nil, nil
					r.Fault("node disappears during walks")
				}
				r.pause()
			}
		})
	}
	nw := 1 + r.C.Choose(2)
	for i := 0; i < nw; i++ {
		var lo, hi []uint32
		if r.C.Choose(3) != 0 {
			lo = r.pickBound(stable, inner)
		}
		if r.C.Choose(3) == 2 {
			hi = r.pickBound(stable, inner)
		}
		incl := r.C.Choose(2) == 1
		r.S.Spawn(fmt.Sprintf("walker%d", i), func() { w.walk(lo, hi, incl, stable) })
	}
	r.trivial = nc == 0
	var ids [][]uint32
	for _, s := range stable {
		ids = append(ids, s.id)
	}
	return r.otherTree(nil, ids)
}

func (r *Run) pickBound(stable []*life, inner [][]uint32) []uint32 {
	var id []uint32
	switch r.C.Choose(3) {
	case 0:
		if len(stable) > 0 {
			id = append(id, stable[r.C.Choose(len(stable))].id...)
		}
	case 1:
		id = append(id, inner[r.C.Choose(len(inner))]...)
	default:
		if len(stable) > 0 {
			id = append(id, stable[r.C.Choose(len(stable))].id...)
		}
		id = append(id, uint32(r.C.Choose(3)))
	}
	if len(id) > 0 && r.C.Choose(3) == 2 {
		id[len(id)-1] += []uint32{1, 0xFFFFFFFF}[r.C.Choose(2)]
	}
	return id
}

func (w *walkWorld) walk(lo, hi []uint32, incl bool, stable []*life) {
	r := w.r
	klo, khi := key(lo), key(hi)
	cur := append([]uint32{}, lo...)
	begin := r.S.Seq()
	visited := map[string]bool{}
	var trail []string
	what := func() string {
		return fmt.Sprintf("walk from %s (include=%v) to %s, visited [%s]", unkey(klo), incl, unkey(khi), strings.Join(trail, " "))
	}
	var end int64
	for n := 0; ; n++ {
		if n > 400 {
			r.Fail("walk does not end", "%s", what())
		}
		var node *oid.Node
		inv := r.S.Seq()
		arg, argh := dupOid(cur), dupOid(hi)
		r.Call("GetNextNode", func() { node = w.t.GetNextNode(arg, argh, incl && n == 0) })
		ret := r.S.Seq()
		r.Checked()
		if !untouched(arg, cur) || !untouched(argh, hi) {
			r.Fail("argument changed", "%s: the identifiers given to GetNextNode became %v and %v", what(), arg[:cap(arg)], argh[:cap(argh)])
		}
		if node == nil {
			end = ret
			break
		}
		for w.reg[node] == nil && w.busy > 0 {
			rt.Block(regWait{w, node}, 0)
		}
		l := w.reg[node]
		if l == nil {
			r.Fail("wrong node", "%s: then a node nobody added (subid %d)", what(), node.Subid)
		}
		kc := key(cur)
		trail = append(trail, unkey(l.key))
		switch {
		case l.key < kc || l.key == kc && !(incl && n == 0):
			r.Fail("walk not ascending", "%s", what())
		case khi != "" && l.key >= khi:
			r.Fail("walk out of bounds", "%s", what())
		case l.addInv > ret || l.remRet < inv:
			r.Fail("dead node returned", "%s: %s was not in the tree", what(), unkey(l.key))
		}
		if l.interior {
			for _, s := range stable {
				if strings.HasPrefix(s.key, l.key) {
					r.Fail("inner node returned", "%s: %s is not a leaf", what(), unkey(l.key))
				}
			}
		}
		for _, b := range l.kids {
			if b.addRet < inv && b.remInv > ret {
				r.Fail("inner node returned", "%s: %s has %s below it", what(), unkey(l.key), unkey(b.key))
			}
		}
		visited[l.key] = true
		cur = append([]uint32{}, l.id...)
		r.S.Observe("next %s", unkey(l.key))
		if r.C.Choose(3) == 0 {
			r.pause()
		}
	}
	for _, s := range w.all {
		if s.interior || s.parent || s.addRet >= begin || s.remInv <= end {
			continue
		}
		in := s.key > klo || s.key == klo && incl
		if khi != "" && s.key >= khi {
			in = false
		}
		if in && !visited[s.key] {
			r.Fail("leaf skipped", "%s: %s was there all the time and was not visited", what(), unkey(s.key))
		}
		r.Checked()
	}
	r.Probe("walk finished")
}

// ---- C12: every operation finishes

// setupSteady has readers whose slow visits overlap all the time, and a
// writer that must get its turn all the same. Between its visits every reader
// sleeps for a moment, in which all that can go on does.
func setupSteady(r *Run) func() {
	t := oid.NewTree()
	id := []uint32{1, 3, 6}
	t.AddNode(id)
	var began, ended int
	readers, rounds := 2+r.C.Choose(2), 40+r.C.Choose(20)
	kind, at := []int{opAdd, opRemove, opClear}[r.C.Choose(3)], int64(5000+r.C.Choose(10000))
	r.S.Spawn("writer", func() {
		r.S.Sleep(at)
		before := began
		r.Call("writer", func() {
			switch kind {
			case opAdd:
				t.AddNode([]uint32{1, 3, 7})
			case opRemove:
				t.RemoveNode([]uint32{1, 3, 7})
			default:
				t.Clear()
				t.AddNode(id)
			}
		})
		if began-before > readers*rounds/2 {
			r.Fail("starved", "%d visits of %d other goroutines began, one after the other, before a change made meanwhile returned", began-before, readers)
		}
		r.Checked()
		r.Probe("writer among steady readers")
	})
	for i := 0; i < readers; i++ {
		start := int64(1 + i*2000/readers)
		r.S.Spawn("reader", func() {
			r.S.Sleep(start)
			for n := 0; n < rounds; n++ {
				began++
				r.Call("ForRangeLeaves", func() {
					t.ForRangeLeaves(func([]uint32, *oid.Node) {
						r.Fault("slow visitor")
						r.S.Sleep(2000)
					})
				})
				ended++
				r.S.Sleep(1)
			}
		})
	}
	return func() {
		if ended != readers*rounds {
			r.Fail("call lost", "%d of %d visits did not return", readers*rounds-ended, readers*rounds)
		}
		r.trivial = false
	}
}

func setupC12(r *Run) func() {
	if r.C.Choose(64) == 63 {
		return setupSteady(r)
	}
	g := r.newTreeGen()
	t, setup, tasks := r.scripts(g, []int{3, 2, 2, 2, 1, 3}, 5, 6, 6)
	exits := 0
	for _, ops := range tasks {
		for _, o := range ops {
			if o.kind == opLeaves {
				switch r.C.Choose(4) {
				case 2:
					o.visit = 2
				case 3:
					o.visit = 10 + r.C.Choose(3)
				}
			}
		}
	}
	r.spawnScripts(t, tasks)
	if r.C.Choose(4) == 3 { // a goroutine that ends inside a visitor
		exits++
		r.S.Spawn("quitter", func() {
			r.Call("ForRangeLeaves", func() {
				t.ForRangeLeaves(func([]uint32, *oid.Node) {
					r.Fault("goroutine ends in a visitor")
					runtime.Goexit()
				})
			})
		})
	}
	if r.C.Choose(24) == 23 { // one failing visitor after the other
		exits++
		rounds := 3 + r.C.Choose(60)
		if r.C.Choose(4) == 3 {
			rounds = 2 + r.C.NumTo(300, 60)
		}
		quit := r.C.Choose(3) == 2
		r.S.Spawn("failing visitors", func() {
			for ; rounds > 0; rounds-- {
				if quit {
					r.Fault("goroutine ends in a visitor")
					r.S.Spawn("quitter", func() {
						r.Call("ForRangeLeaves", func() {
							t.ForRangeLeaves(func([]uint32, *oid.Node) { runtime.Goexit() })
						})
					})
				} else {
					func() {
						defer func() {
							if x := recover(); x != nil {
								if _, ok := x.(visitorPanic); !ok {
									panic(x)
								}
								r.Fault("visitor panics")
							}
						}()
						r.Call("ForRangeLeaves", func() {
							t.ForRangeLeaves(func([]uint32, *oid.Node) { panic(visitorPanic{}) })
						})
					}()
				}
				if rounds%4 == 0 {
					r.pause()
				}
			}
		})
	}
	if r.C.Choose(4) == 3 { // a visitor that copies what it sees into another tree
		other := oid.NewTree()
		rounds, fresh, more := 1+r.C.Choose(2), r.C.Choose(2) == 1, r.C.Choose(3) == 2
		if fresh && r.C.Choose(32) == 31 {
			rounds = 2 + r.C.Choose(70)
		}
		r.S.Spawn("copier", func() {
			r.Probe("visitor uses another tree")
			for ; rounds > 0; rounds-- {
				if fresh {
					other = oid.NewTree()
				} else {
					other.Clear()
				}
				var n int
				r.Call("ForRangeLeaves", func() {
					t.ForRangeLeaves(func(id []uint32, node *oid.Node) {
						n++
						if other.AddNode(id) == nil || other.GetNode(id) == nil {
							r.Fail("copy incomplete", "leaf %s could not be copied to another tree", unkey(key(id)))
						}
						if more {
							m := 0
							other.ForRangeLeaves(func([]uint32, *oid.Node) { m++ })
							if m != n || other.GetNextNode(id, nil, true) == nil || !other.RemoveNode(id) || other.AddNode(id) == nil {
								r.Fail("copy incomplete", "the copy, with %d of %d leaves, misses leaf %s", m, n, unkey(key(id)))
							}
						}
					})
					other.ForRangeLeaves(func([]uint32, *oid.Node) { n-- })
				})
				if n != 0 {
					r.Fail("copy incomplete", "%d leaves are missing in the copy", n)
				}
				r.Checked()
				r.pause()
			}
		})
	}
	// a latecomer: after everything above it still gets its turn
	var late []*tOp
	for k := opAdd; k <= opLeaves; k++ {
		late = append(late, &tOp{kind: k, a: g.oid(), b: g.bound(), task: 9, sleep: 1000})
	}
	late[opClear].kind = opGet
	if r.C.Choose(3) == 2 {
		late[0].kind, late[2].kind = opRemove, opLeaves
	}
	tasks = append(tasks, late)
	r.spawnScripts(t, tasks[len(tasks)-1:])
	other := r.otherTree(g, nil)
	return func() {
		defer other()
		for _, o := range flat(tasks) {
			if !o.done {
				r.Fail("call lost", "%s did not return", o)
			}
			if o.died {
				r.Fault("visitor panics")
			}
			if o.visit == 2 {
				r.Fault("slow visitor")
			}
		}
		r.checkHistory(setup, tasks)
		r.trivial = false
	}
}

// ---- C13: snapshots

func setupC13(r *Run) func() {
	if !r.Race && r.C.Choose(200) == 199 {
		return r.bigTree([4]int{6, 0, 0, 2})
	}
	g := r.newTreeGen()
	mix := [][]int{{4, 0, 0, 3, 1, 4}, {3, 0, 0, 3, 0, 3}, {3, 1, 0, 2, 0, 6}}[r.C.Choose(3)]
	t, setup, tasks := r.scripts(g, mix, 4, 5, 8)
	n := 0
	for _, ops := range tasks {
		for _, o := range ops {
			if o.kind == opLeaves {
				n++
				o.visit = r.C.Choose(6)
				if o.visit == 5 {
					o.visit = 10 + r.C.Choose(3)
				}
			}
		}
	}
	r.spawnScripts(t, tasks)
	other := r.otherTree(g, nil)
	return func() {
		defer other()
		fin := &tOp{kind: opLeaves, task: -2}
		fin.apply(r, t)
		r.checkHistory(setup, append(tasks, []*tOp{fin}))
		for _, o := range flat(tasks) {
			for i, l := range o.leaves {
				if i > 0 && o.leaves[i-1].key >= l.key {
					r.Fail("leaves not ascending", "%s", o)
				}
			}
			if o.visit == 3 || o.visit == 4 {
				r.Fault("visitor changes the identifier")
				for _, id := range o.raw {
					for _, s := range id {
						if s != 0xABABABAB {
							r.Fail("identifier shared", "an identifier the visitor kept was changed: %v", id)
						}
					}
				}
				continue
			}
			for i, id := range o.raw {
				r.Checked()
				if key(id) != o.leaves[i].key {
					r.Fail("identifier shared", "the visitor got %s and kept it; now it reads %s", unkey(o.leaves[i].key), unkey(key(id)))
				}
			}
		}
		// appending to identifiers that were kept
		for _, o := range flat(tasks) {
			if o.visit == 3 || o.visit == 4 {
				continue
			}
			for _, id := range o.raw {
				_ = append(id, 0xEEEEEEEE, 0xEEEEEEEE, 0xEEEEEEEE, 0xEEEEEEEE)
			}
		}
		for _, o := range flat(tasks) {
			if o.visit == 3 || o.visit == 4 {
				continue
			}
			for i, id := range o.raw {
				if key(id) != o.leaves[i].key {
					r.Fail("identifier shared", "the visitor got %s and kept it; after appending to another one it reads %s", unkey(o.leaves[i].key), unkey(key(id)))
				}
			}
		}
		if n == 0 {
			r.trivial = true
		}
	}
}

// ---- C14: handles

type slot struct {
	id    []uint32
	node  *oid.Node
	data  interface{}
	old   []*oid.Node
	oldD  []interface{}
	below []*slot // added below this one; removed together with it
	inter bool
	crowd bool
}

func (s *slot) gone() {
	if s.node != nil {
		s.old, s.oldD = append(s.old, s.node), append(s.oldD, s.data)
		s.node = nil
	}
	for _, b := range s.below {
		b.gone()
	}
}

func (s *slot) bare() bool {
	for _, b := range s.below {
		if b.node != nil {
			return false
		}
	}
	return true
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func setupC14(r *Run) func() {
	if !r.Race && r.C.Choose(200) == 199 {
		return r.bigTree([4]int{4, 4, 1, 1})
	}
	t := oid.NewTree()
	off := r.C.Choose(len(subidPool))
	base := []uint32{subidPool[off], subidPool[(off+1)%len(subidPool)]}[:1+r.C.Choose(2)]
	add := func(s *slot) {
		arg := dupOid(s.id)
		r.Call("AddNode", func() { s.node = t.AddNode(arg) })
		for i := range arg {
			arg[i] ^= 0x55
		}
		if s.node == nil {
			r.Fail("node not added", "AddNode(%s) = nil", unkey(key(s.id)))
		}
		for _, o := range s.old {
			if o == s.node {
				r.Fail("removed node came back", "AddNode(%s) returned the node that was removed", unkey(key(s.id)))
			}
		}
		if s.node.Subid != s.id[len(s.id)-1] || s.node.Data != nil {
			r.Fail("node not fresh", "AddNode(%s): subid %d, data %v", unkey(key(s.id)), s.node.Subid, s.node.Data)
		}
	}
	stat := &slot{id: base, inter: true}
	add(stat)
	stat.node.Data, stat.data = "base", "base"
	slots := []*slot{stat}
	taken := map[string]bool{}
	nt := 2 + r.C.Choose(3)
	perm := r.C.Choose(len(subidPool))
	k := 0
	for i := 0; i < nt; i++ {
		var own []*slot
		for n := 1 + r.C.Choose(3); n > 0; n-- {
			id := append(append([]uint32{}, base...), subidPool[(perm+5*k)%len(subidPool)])
			k++
			if r.C.Choose(4) == 3 {
				id = append(id, 1)
			}
			if taken[key(id)[:4*(len(base)+1)]] {
				continue
			}
			taken[key(id)[:4*(len(base)+1)]] = true
			s := &slot{id: id}
			own = append(own, s)
			slots = append(slots, s)
			if r.C.Choose(3) == 2 { // with nodes of its own below
				for n := 1 + r.C.Choose(3); n > 0; n-- {
					b := &slot{id: append(append([]uint32{}, id...), subidPool[(off+n)%len(subidPool)])}
					if r.C.Choose(3) == 2 {
						b.id = append(b.id, 9)
					}
					s.below = append(s.below, b)
					slots = append(slots, b)
				}
			}
		}
		if len(own) == 0 {
			continue
		}
		i := i
		rounds := 2 + r.C.Choose(8)
		r.S.Spawn(fmt.Sprintf("owner%d", i), func() {
			for n := 0; n < rounds; n++ {
				s := own[r.C.Choose(len(own))]
				if len(s.below) > 0 && s.node != nil && r.C.Choose(3) != 2 {
					s = s.below[r.C.Choose(len(s.below))]
				}
				r.Checked()
				switch {
				case s.node == nil:
					add(s)
					s.data = nil
					if r.C.Choose(3) != 2 { // some nodes stay without data
						s.data = fmt.Sprintf("owner%d.%d", i, n)
					}
					s.node.Data = s.data
				case r.C.Choose(3) == 0:
					var got *oid.Node
					r.Call("GetNode", func() { got = t.GetNode(dupOid(s.id)) })
					if got != s.node {
						r.Fail("handle changed", "GetNode(%s) is not the node AddNode returned", unkey(key(s.id)))
					}
					var again *oid.Node
					r.Call("AddNode", func() { again = t.AddNode(dupOid(s.id)) })
					if again != nil {
						r.Fail("node added twice", "AddNode(%s) succeeded although it is in the tree", unkey(key(s.id)))
					}
					if got.Data != s.data {
						r.Fail("data lost", "%s: %v, stored %v", unkey(key(s.id)), got.Data, s.data)
					}
				default:
					var ok bool
					if n := s.node; n.Parent == nil || len(s.below) == 0 && len(n.Children) != 0 {
						r.Fail("node damaged", "%s: parent or children of a leaf changed", unkey(key(s.id)))
					}
					if !s.bare() {
						r.Fault("subtree removed")
					}
					r.Call("RemoveNode", func() { ok = t.RemoveNode(dupOid(s.id)) })
					if !ok {
						r.Fail("node not removed", "RemoveNode(%s) = false", unkey(key(s.id)))
					}
					var got *oid.Node
					r.Call("GetNode", func() { got = t.GetNode(dupOid(s.id)) })
					if got != nil {
						r.Fail("removed node found", "GetNode(%s) after removal", unkey(key(s.id)))
					}
					s.gone()
				}
				r.S.Observe("%s %v", unkey(key(s.id)), s.node != nil)
				r.pause()
			}
		})
	}
	if mode := r.C.Choose(6); mode > 3 {
		// a node that gets many children and loses most of them again
		over := append(dupOid(base), 0x70000000)
		if mode == 5 {
			over = base // next to the others
		}
		n := 5 + r.C.Choose(70)
		if r.C.Choose(8) == 7 {
			n = 5 + r.C.NumTo(140, 64)
		}
		keep := r.C.Choose(min(n, 9))
		stride := []int{1, n - 1, 7, 3}[r.C.Choose(4)]
		for gcd(stride, n) != 1 {
			stride++
		}
		var crowd []*slot
		for i := 0; i < n; i++ {
			s := &slot{id: append(dupOid(over), 0x71000000+uint32(i*stride%n)), crowd: true}
			crowd = append(crowd, s)
			slots = append(slots, s)
		}
		r.S.Spawn("crowd", func() {
			for rounds := 1 + r.C.Choose(2); rounds > 0; rounds-- {
				for i, s := range crowd {
					if s.node == nil {
						add(s)
						s.data = fmt.Sprintf("crowd%d.%d", rounds, i)
						s.node.Data = s.data
					}
				}
				for i := n; i > 0; i-- {
					s := crowd[i*stride%n]
					if s.node == nil || i <= keep {
						continue
					}
					var ok bool
					r.Call("RemoveNode", func() { ok = t.RemoveNode(dupOid(s.id)) })
					if !ok {
						r.Fail("node not removed", "RemoveNode(%s) = false", unkey(key(s.id)))
					}
					s.gone()
				}
				for i, s := range crowd {
					var got *oid.Node
					r.Call("GetNode", func() { got = t.GetNode(dupOid(s.id)) })
					if got != s.node {
						r.Fail("handle changed", "GetNode(%s) is not the node AddNode returned", unkey(key(s.id)))
					}
					if got != nil && r.C.Choose(2) == 1 { // through the handle
						s.data = fmt.Sprintf("later%d", i)
						s.node.Data = s.data
					}
				}
				r.pause()
			}
		})
		k += n
	}
	r.trivial = k < 2
	var ids [][]uint32
	for _, s := range slots {
		ids = append(ids, s.id)
	}
	other := r.otherTree(nil, ids)
	return func() {
		defer other()
		atRest := func() {
			// at rest: the tree that can be reached from any node is the one
			// that was built
			root := stat.node
			for n := 0; root.Parent != nil; n++ {
				if n > 300 {
					r.Fail("structure broken", "parents form a cycle")
				}
				root = root.Parent
			}
			found := map[string]*oid.Node{}
			var down func(n *oid.Node, path []uint32)
			down = func(n *oid.Node, path []uint32) {
				if len(path) > 200 || len(found) > 5000 {
					r.Fail("structure broken", "children form a cycle")
				}
				for i, c := range n.Children {
					if c == nil || c.Parent != n {
						r.Fail("structure broken", "child %d of %s has another parent", i, unkey(key(path)))
					}
					if i > 0 && n.Children[i-1].Subid >= c.Subid {
						r.Fail("structure broken", "children of %s are not in order", unkey(key(path)))
					}
					p := append(append([]uint32{}, path...), c.Subid)
					found[key(p)] = c
					r.Checked()
					var got *oid.Node
					r.Call("GetNode", func() { got = t.GetNode(p) })
					if got != c {
						r.Fail("structure broken", "GetNode(%s) is not the child found there", unkey(key(p)))
					}
					down(c, p)
				}
			}
			down(root, nil)
			for _, s := range slots {
				n := found[key(s.id)]
				if s.node == nil {
					if n != nil {
						r.Fail("removed node found", "%s", unkey(key(s.id)))
					}
				} else {
					if n != s.node {
						r.Fail("handle changed", "%s is not the node AddNode returned", unkey(key(s.id)))
					}
					if n.Data != s.data {
						r.Fail("data lost", "%s: %v, stored %v", unkey(key(s.id)), n.Data, s.data)
					}
				}
				for i, o := range s.old {
					if o.Data != s.oldD[i] || o.Subid != s.id[len(s.id)-1] {
						r.Fail("data lost", "a node kept after its removal from %s: %v, stored %v", unkey(key(s.id)), o.Data, s.oldD[i])
					}
				}
			}
		}
		atRest()
		if again := r.C.Choose(4); again > 1 {
			r.Fault("tree cleared")
			r.Call("Clear", func() { t.Clear() })
			for _, s := range slots {
				var got *oid.Node
				r.Call("GetNode", func() { got = t.GetNode(dupOid(s.id)) })
				if got != nil {
					r.Fail("removed node found", "GetNode(%s) after Clear", unkey(key(s.id)))
				}
				s.gone()
			}
			for i, s := range slots {
				if i == 0 || again == 3 && !s.crowd && len(s.id) == len(base)+1 {
					add(s)
					s.data = fmt.Sprintf("again%d", i)
					s.node.Data = s.data
				}
			}
			atRest()
		}
	}
}
