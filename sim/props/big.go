package props

import (
	"fmt"
	"sort"

	"github.com/alexispb/mygosnmp/oid"

	"verif.local/sim/rt"
)

// A tree with a long life: levels of up to a thousand siblings or very deep
// branches, filled and emptied by up to three owners in thousands of
// operations. Each owner knows what the tree holds of its own nodes, whatever
// the others do.

type bigNode struct {
	id   []uint32
	key  string
	node *oid.Node
	data interface{}
}

type bigTree struct {
	r      *Run
	t      *oid.Tree
	names  map[*oid.Node]string // every node that was ever returned to an owner
	active int
	owners []*bigOwner
	shots  []bigShot
	prefix []uint32
}

// bigEv is a change that an owner made.
type bigEv struct {
	x        *bigNode
	node     *oid.Node // nil: removed
	inv, ret int64
}

type bigOwner struct {
	b    *bigTree
	log  []bigEv
	no   int
	own  []*bigNode // ascending
	at   map[string]*bigNode
	st   *rt.Stream
	vers int
}

func (o *bigOwner) pick(n int) int { return int(o.st.Next() % uint64(n)) }

func (o *bigOwner) add(x *bigNode) {
	r := o.b.r
	r.Checked()
	arg := dupOid(x.id)
	var n *oid.Node
	if x.node == nil {
		o.log = append(o.log, bigEv{x: x, inv: r.S.Seq(), ret: 1 << 62})
	}
	r.Call("AddNode", func() { n = o.b.t.AddNode(arg) })
	for i := range arg {
		arg[i] ^= 0x5A
	}
	if x.node == nil {
		ev := &o.log[len(o.log)-1]
		ev.node, ev.ret = n, r.S.Seq()
	}
	if x.node != nil {
		if n != nil {
			r.Fail("node added twice", "AddNode(%s) succeeded although it is in the tree", unkey(x.key))
		}
		return
	}
	if n == nil {
		r.Fail("node not added", "AddNode(%s) = nil although it is not in the tree", unkey(x.key))
	}
	if was := o.b.names[n]; was != "" {
		r.Fail("wrong node", "AddNode(%s) returned a node that was returned for %s before", unkey(x.key), unkey(was))
	}
	if n.Subid != x.id[len(x.id)-1] || n.Data != nil {
		r.Fail("node not fresh", "AddNode(%s): subid %d, data %v", unkey(x.key), n.Subid, n.Data)
	}
	o.b.names[n] = x.key
	o.vers++
	x.node, x.data = n, o.vers
	n.Data = o.vers
}

func (o *bigOwner) get(x *bigNode) {
	r := o.b.r
	r.Checked()
	var n *oid.Node
	r.Call("GetNode", func() { n = o.b.t.GetNode(dupOid(x.id)) })
	if n != x.node {
		r.Fail("handle changed", "GetNode(%s) = %v, want %v", unkey(x.key), n != nil, x.node != nil)
	}
	if n != nil && n.Data != x.data {
		r.Fail("data lost", "%s: %v, stored %v", unkey(x.key), n.Data, x.data)
	}
}

func (o *bigOwner) remove(x *bigNode) {
	r := o.b.r
	r.Checked()
	var ok bool
	if x.node != nil {
		o.log = append(o.log, bigEv{x: x, inv: r.S.Seq(), ret: 1 << 62})
	}
	r.Call("RemoveNode", func() { ok = o.b.t.RemoveNode(dupOid(x.id)) })
	if x.node != nil {
		o.log[len(o.log)-1].ret = r.S.Seq()
	}
	if ok != (x.node != nil) {
		r.Fail("wrong removal", "RemoveNode(%s) = %v", unkey(x.key), ok)
	}
	if n := x.node; n != nil && n.Data != x.data {
		r.Fail("data lost", "%s after its removal: %v, stored %v", unkey(x.key), n.Data, x.data)
	}
	x.node = nil
}

func (o *bigOwner) next() {
	r := o.b.r
	r.Checked()
	i := o.pick(len(o.own))
	lo := dupOid(o.own[i].id)
	switch o.pick(8) {
	case 0:
		lo = nil
	case 1:
		lo = append(lo, 0)
	case 2:
		lo = lo[:len(lo)-1]
	}
	var hi []uint32
	if o.pick(2) == 1 {
		hi = dupOid(o.own[min(len(o.own)-1, i+o.pick(6))].id)
	}
	incl := o.pick(2) == 1
	klo, khi := key(lo), key(hi)
	var want *bigNode
	for j := sort.Search(len(o.own), func(j int) bool { return o.own[j].key >= klo }); j < len(o.own); j++ {
		if x := o.own[j]; x.node != nil && (x.key > klo || incl) {
			if khi == "" || x.key < khi {
				want = x
			}
			break
		}
	}
	what := func() string {
		return fmt.Sprintf("GetNextNode(%s, %s, %v)", unkey(klo), unkey(khi), incl)
	}
	var n *oid.Node
	r.Call("GetNextNode", func() { n = o.b.t.GetNextNode(lo, hi, incl) })
	if n == nil {
		if want != nil {
			r.Fail("leaf skipped", "%s = nil, there is %s", what(), unkey(want.key))
		}
		return
	}
	k, known := o.b.names[n]
	if !known {
		if o.b.active > 1 {
			return // just added by another owner
		}
		// made on the way to another node, and left over when that one went
		if k = key(nodeOid(n)); len(n.Children) > 0 {
			r.Fail("wrong node", "%s = %s is not a leaf", what(), unkey(k))
		}
	}
	if k < klo || k == klo && !incl || khi != "" && k >= khi {
		r.Fail("walk out of bounds", "%s = %s", what(), unkey(k))
	}
	if want != nil && k > want.key {
		r.Fail("leaf skipped", "%s = %s, there is %s", what(), unkey(k), unkey(want.key))
	}
	if x := o.at[k]; x != nil && x.node != n {
		r.Fail("dead node returned", "%s = %s, which is not in the tree", what(), unkey(k))
	}
}

func (o *bigOwner) leaves() {
	r := o.b.r
	r.Checked()
	var got []leaf
	var raw [][]uint32
	inv := r.S.Seq()
	r.Call("ForRangeLeaves", func() {
		o.b.t.ForRangeLeaves(func(id []uint32, n *oid.Node) {
			got = append(got, leaf{key(id), n})
			raw = append(raw, id)
		})
	})
	ret := r.S.Seq()
	o.snapshot(got)
	for _, p := range o.b.owners {
		if p != o {
			o.b.shots = append(o.b.shots, bigShot{p, p.only(got), inv, ret})
		}
	}
	for i, id := range raw {
		if key(id) != got[i].key {
			r.Fail("identifier shared", "the visitor got %s and kept it; now it reads %s", unkey(got[i].key), unkey(key(id)))
		}
	}
}

func (o *bigOwner) snapshot(got []leaf) {
	r := o.b.r
	seen := 0
	for i, l := range got {
		if i > 0 && got[i-1].key >= l.key {
			r.Fail("leaves not ascending", "%s after %s", unkey(l.key), unkey(got[i-1].key))
		}
		if x := o.at[l.key]; x != nil {
			seen++
			if x.node == nil || x.node != l.node {
				r.Fail("snapshot wrong", "%s: in the tree %v, the same node %v", unkey(l.key), x.node != nil, x.node == l.node)
			}
		}
	}
	live := 0
	for _, x := range o.own {
		if x.node != nil {
			live++
		}
	}
	if seen != live {
		r.Fail("snapshot wrong", "%d of %d standing leaves were shown", seen, live)
	}
}

// bigShot is what a snapshot that another owner took shows of p's nodes.
type bigShot struct {
	p        *bigOwner
	got      map[string]*oid.Node
	inv, ret int64
}

func (o *bigOwner) only(got []leaf) map[string]*oid.Node {
	m := map[string]*oid.Node{}
	for _, l := range got {
		if o.at[l.key] != nil {
			m[l.key] = l.node
		}
	}
	return m
}

// judge looks for a moment of the snapshot at which p's nodes were as shown.
func (b *bigTree) judge(s bigShot) {
	r := b.r
	r.Checked()
	state := map[string]*oid.Node{}
	diff := len(s.got) // keys at which state and snapshot differ
	step := func(ev bigEv) {
		k := ev.x.key
		was := state[k] == s.got[k]
		if ev.node == nil {
			delete(state, k)
		} else {
			state[k] = ev.node
		}
		if is := state[k] == s.got[k]; was && !is {
			diff++
		} else if is && !was {
			diff--
		}
	}
	i := 0
	for ; i < len(s.p.log) && s.p.log[i].ret < s.inv; i++ {
		step(s.p.log[i])
	}
	first := i
	for {
		if diff == 0 {
			if i > first {
				r.Probe("snapshot during changes")
			}
			return
		}
		if i >= len(s.p.log) || s.p.log[i].inv > s.ret {
			break
		}
		step(s.p.log[i])
		i++
	}
	r.Fail("snapshot wrong", "a snapshot shows %d leaves of owner %d; at no moment between its beginning and its end were these the ones in the tree", len(s.got), s.p.no)
}

func (o *bigOwner) order() []int {
	n := len(o.own)
	p := make([]int, n)
	switch mode := o.pick(4); mode {
	case 0, 1:
		for i := range p {
			p[i] = i
			if mode == 1 {
				p[i] = n - 1 - i
			}
		}
	case 2: // inwards or outwards
		for i := range p {
			p[i] = i / 2
			if i%2 == 1 {
				p[i] = n - 1 - i/2
			}
		}
	default:
		for i := range p {
			j := o.pick(i + 1)
			p[i] = p[j]
			p[j] = i
		}
	}
	return p
}

func (o *bigOwner) life(mix [4]int) {
	r := o.b.r
	total := mix[0] + mix[1] + mix[2] + mix[3]
	some := func(n int) {
		for ; n > 0; n-- {
			k := o.pick(total)
			switch {
			case k < mix[0]:
				x := o.own[o.pick(len(o.own))]
				if x.node == nil || o.pick(4) == 3 {
					o.add(x)
				} else {
					o.remove(x)
				}
			case k < mix[0]+mix[1]:
				o.get(o.own[o.pick(len(o.own))])
			case k < mix[0]+mix[1]+mix[2]:
				o.next()
			default:
				o.leaves()
			}
		}
	}
	for rounds := 1 + o.pick(2); rounds > 0; rounds-- {
		for i, j := range o.order() {
			o.add(o.own[j])
			if i%16 == 15 {
				some(2)
			}
		}
		some(10 + o.pick(60))
		r.S.Sleep(int64(o.pick(3)) * 20)
		keep := o.pick(len(o.own))
		if o.pick(3) == 2 {
			keep = 0
		}
		for i, j := range o.order()[keep:] {
			if x := o.own[j]; x.node != nil {
				o.remove(x)
			}
			if i%16 == 15 {
				some(2)
			}
		}
		some(10 + o.pick(30))
	}
	r.S.Observe("owner %d done, %d", o.no, o.vers)
}

func (r *Run) bigTree(mix [4]int) func() {
	c := r.C
	b := &bigTree{r: r, t: oid.NewTree(), names: map[*oid.Node]string{}}
	width := []int{70, 40, 130, 260, 520, 1030, max(32, c.NumTo(1030, 70)+6)}[c.Choose(7)] - c.Choose(12)
	step := []uint32{1, 3, 250, 65536, 1 << 21}[c.Choose(5)]
	start := subidPool[c.Choose(len(subidPool))]
	if uint64(start)+uint64(step)*uint64(width) > 1<<32 {
		start = uint32(1<<32 - uint64(step)*uint64(width))
	}
	for n := c.Choose(4); n > 0; n-- {
		b.prefix = append(b.prefix, subidPool[c.Choose(len(subidPool))])
	}
	deep := c.Choose(6) == 5
	if deep { // every leaf at the end of a long branch
		width = 10 + c.Choose(30)
		step = 1
	}
	no := 1 + c.Choose(3)
	blocks := c.Choose(2) == 1
	sub := c.Choose(3) // some have a level below
	for i := 0; i < no; i++ {
		b.owners = append(b.owners, &bigOwner{b: b, no: i, at: map[string]*bigNode{}, st: rt.NewStream(c.Word())})
	}
	long := 0
	if deep {
		long = []int{30, 64, 100, 128, 200, 256, 300, c.NumTo(300, 64)}[c.Choose(8)]
	}
	for i := 0; i < width; i++ {
		o := b.owners[i%no]
		if blocks {
			o = b.owners[i*no/width]
		}
		id := append(append([]uint32{}, b.prefix...), start+uint32(i)*step)
		for k := 0; k < long; k++ {
			id = append(id, uint32(k))
		}
		add := func(id []uint32) {
			x := &bigNode{id: id, key: key(id)}
			o.own = append(o.own, x)
			o.at[x.key] = x
		}
		if sub > 0 && i%(sub*3) == 0 {
			add(append(append([]uint32{}, id...), 0))
			add(append(append([]uint32{}, id...), 5, 5))
			add(append(append([]uint32{}, id...), 0xFFFFFFFF))
		} else {
			add(id)
		}
	}
	b.active = no
	for _, o := range b.owners {
		o := o
		sort.Slice(o.own, func(i, j int) bool { return o.own[i].key < o.own[j].key })
		r.S.Spawn(fmt.Sprintf("owner%d", o.no), func() {
			o.life(mix)
			b.active--
		})
	}
	r.Probe("large tree")
	return func() {
		for _, s := range b.shots {
			b.judge(s)
		}
		var live []*bigNode
		for _, o := range b.owners {
			o.leaves()
			for _, x := range o.own {
				o.get(x)
				if x.node != nil {
					live = append(live, x)
				}
			}
		}
		sort.Slice(live, func(i, j int) bool { return live[i].key < live[j].key })
		if len(live) == 0 {
			return
		}
		// what is left of removed branches is made of leaves as well
		var cur []uint32
		i := 0
		for n := 0; ; n++ {
			if n > 3*width+10 {
				r.Fail("walk does not end", "after %s", unkey(key(cur)))
			}
			var node *oid.Node
			r.Call("GetNextNode", func() { node = b.t.GetNextNode(cur, nil, false) })
			if node == nil {
				break
			}
			r.Checked()
			id := nodeOid(node)
			if key(id) <= key(cur) {
				r.Fail("walk not ascending", "%s after %s", unkey(key(id)), unkey(key(cur)))
			}
			cur = id
			if i < len(live) && live[i].node == node {
				i++
			} else if b.names[node] != "" || len(node.Children) > 0 {
				r.Fail("wrong node", "walk: %s", unkey(key(cur)))
			}
		}
		if i != len(live) {
			r.Fail("leaf skipped", "the walk missed %s", unkey(live[i].key))
		}
		for _, x := range live {
			up := x.node
			for p := up.Parent; p != nil; up, p = p, p.Parent {
				j := sort.Search(len(p.Children), func(j int) bool { return p.Children[j].Subid >= up.Subid })
				if j >= len(p.Children) || p.Children[j] != up {
					r.Fail("structure broken", "the parent of %s does not know it", unkey(x.key))
				}
			}
		}
	}
}
