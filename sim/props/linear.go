package props

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"

	"github.com/alexispb/mygosnmp/oid"
)

// The sequential model of the tree is a prefix-closed, ordered set of object
// identifiers, each with the identity of the node that was created for it.
// Object identifiers are kept as strings of 4 big-endian bytes per
// sub-identifier: their byte order is the lexicographic order of the
// identifiers.

func key(id []uint32) string {
	b := make([]byte, 0, 4*len(id))
	for _, s := range id {
		b = binary.BigEndian.AppendUint32(b, s)
	}
	return string(b)
}

func unkey(k string) string {
	var sb strings.Builder
	for i := 0; i+4 <= len(k); i += 4 {
		if i > 0 {
			sb.WriteByte('.')
		}
		fmt.Fprintf(&sb, "%d", binary.BigEndian.Uint32([]byte(k[i:])))
	}
	if sb.Len() == 0 {
		return "<root>"
	}
	return sb.String()
}

const (
	opAdd = iota
	opGet
	opNext
	opRemove
	opClear
	opLeaves
)

var treeOpNames = []string{"AddNode", "GetNode", "GetNextNode", "RemoveNode", "Clear", "ForRangeLeaves"}

type leaf struct {
	key  string
	node *oid.Node
}

// tOp is an operation on a tree and its outcome.
type tOp struct {
	kind   int
	task   int
	a, b   []uint32
	incl   bool
	sleep  int64
	visit  int      // what the visitor does
	sa, sb []uint32 // arguments shared with other tasks, which only read them
	inv    int64
	ret    int64
	done   bool
	died   bool // the visitor panicked, on purpose
	node   *oid.Node
	ok     bool
	leaves []leaf
	raw    [][]uint32 // identifiers handed to the visitor, kept
	ka, kb string
}

func (o *tOp) String() string {
	s := fmt.Sprintf("[%d,%d] task%d %s(%s", o.inv, o.ret, o.task, treeOpNames[o.kind], unkey(key(o.a)))
	if o.kind == opNext {
		s += fmt.Sprintf(", %s, include=%v", unkey(key(o.b)), o.incl)
	}
	s += ")"
	switch o.kind {
	case opAdd, opGet, opNext:
		if o.node == nil {
			s += " = nil"
		} else {
			s += fmt.Sprintf(" = node %p subid %d", o.node, o.node.Subid)
		}
	case opRemove:
		s += fmt.Sprintf(" = %v", o.ok)
	case opLeaves:
		s += " = ["
		for _, l := range o.leaves {
			s += unkey(l.key) + " "
		}
		s += "]"
	}
	return s
}

type ent struct {
	k   string
	tok int32 // > 0: returned by operation tok-1; < 0: intermediate node
}

type bind struct {
	tok int32
	ptr int32
}

type lstate struct {
	e []ent
	b []bind
}

func (s *lstate) find(k string) (int, bool) {
	i := sort.Search(len(s.e), func(i int) bool { return s.e[i].k >= k })
	return i, i < len(s.e) && s.e[i].k == k
}

func (s *lstate) clone() *lstate {
	return &lstate{append([]ent{}, s.e...), append([]bind{}, s.b...)}
}

func (s *lstate) isLeaf(i int) bool {
	return i+1 >= len(s.e) || !strings.HasPrefix(s.e[i+1].k, s.e[i].k)
}

func (s *lstate) sig() string {
	b := make([]byte, 0, 16*len(s.e)+8*len(s.b))
	for _, e := range s.e {
		b = append(b, byte(len(e.k)), byte(len(e.k)>>8))
		b = append(b, e.k...)
		b = binary.BigEndian.AppendUint32(b, uint32(e.tok))
	}
	b = append(b, 0xFF, 0xFF)
	for _, x := range s.b {
		b = binary.BigEndian.AppendUint32(b, uint32(x.tok))
		b = binary.BigEndian.AppendUint32(b, uint32(x.ptr))
	}
	return string(b)
}

type lin struct {
	ops    []*tOp
	owner  map[*oid.Node]int32 // node -> token, for nodes returned by AddNode
	ids    map[*oid.Node]int32
	seen   map[string]bool
	budget int
	best   int
	stuck  string
}

// match tells whether node may be the one that token tok stands for.
func (l *lin) match(s *lstate, tok int32, node *oid.Node) bool {
	if node == nil {
		return false
	}
	if tok > 0 {
		return l.ops[tok-1].node == node
	}
	if _, ok := l.owner[node]; ok {
		return false
	}
	id, ok := l.ids[node]
	if !ok {
		id = int32(len(l.ids) + 1)
		l.ids[node] = id
	}
	for _, x := range s.b {
		if x.tok == tok {
			return x.ptr == id
		}
		if x.ptr == id {
			return false
		}
	}
	s.b = append(s.b, bind{tok, id})
	sort.Slice(s.b, func(i, j int) bool { return s.b[i].tok < s.b[j].tok })
	return true
}

// step applies operation i to a copy of the state; nil if its outcome is
// impossible there.
func (l *lin) step(s *lstate, i int) *lstate {
	o := l.ops[i]
	n := s.clone()
	switch o.kind {
	case opAdd:
		_, have := n.find(o.ka)
		if have || o.ka == "" {
			if o.node != nil {
				return nil
			}
			return n
		}
		if o.node == nil || l.owner[o.node] != int32(i+1) {
			return nil
		}
		for d := 4; d <= len(o.ka); d += 4 {
			k := o.ka[:d]
			at, have := n.find(k)
			if have {
				continue
			}
			tok := int32(i + 1)
			if d < len(o.ka) {
				tok = -int32(i*1024+d/4) - 1
			}
			n.e = append(n.e, ent{})
			copy(n.e[at+1:], n.e[at:])
			n.e[at] = ent{k, tok}
		}
		return n
	case opGet:
		if o.ka == "" {
			if o.node == nil {
				return nil
			}
			return n
		}
		at, have := n.find(o.ka)
		if !have {
			if o.node != nil {
				return nil
			}
			return n
		}
		if !l.match(n, n.e[at].tok, o.node) {
			return nil
		}
		return n
	case opRemove:
		at, have := n.find(o.ka)
		if o.ka == "" {
			have = false
		}
		if o.ok != have {
			return nil
		}
		if have {
			end := at
			for end < len(n.e) && strings.HasPrefix(n.e[end].k, o.ka) {
				end++
			}
			n.e = append(n.e[:at], n.e[end:]...)
		}
		return n
	case opClear:
		n.e = nil
		return n
	case opNext:
		for j := range n.e {
			if !n.isLeaf(j) || n.e[j].k < o.ka || n.e[j].k == o.ka && !o.incl {
				continue
			}
			if o.kb != "" && n.e[j].k >= o.kb {
				break
			}
			if !l.match(n, n.e[j].tok, o.node) {
				return nil
			}
			return n
		}
		if o.node != nil {
			return nil
		}
		return n
	case opLeaves:
		m := 0
		for j := range n.e {
			if !n.isLeaf(j) {
				continue
			}
			if o.died && m == len(o.leaves) {
				return n // the visitor died here: a prefix was seen
			}
			if m >= len(o.leaves) || o.leaves[m].key != n.e[j].k || !l.match(n, n.e[j].tok, o.leaves[m].node) {
				return nil
			}
			m++
		}
		if m != len(o.leaves) {
			return nil
		}
		return n
	}
	return nil
}

func (l *lin) search(mask []byte, done int, s *lstate) bool {
	if done == len(l.ops) {
		return true
	}
	if done > l.best {
		l.best = done
	}
	sig := string(mask) + s.sig()
	if l.seen[sig] {
		return false
	}
	if l.budget--; l.budget < 0 {
		return true // inconclusive: never reported
	}
	l.seen[sig] = true
	minRet := int64(1) << 62
	for i, o := range l.ops {
		if mask[i/8]&(1<<(i%8)) == 0 && o.ret < minRet {
			minRet = o.ret
		}
	}
	for i, o := range l.ops {
		if mask[i/8]&(1<<(i%8)) != 0 || o.inv > minRet {
			continue
		}
		if n := l.step(s, i); n != nil {
			mask[i/8] |= 1 << (i % 8)
			if l.search(mask, done+1, n) {
				return true
			}
			mask[i/8] &^= 1 << (i % 8)
		}
	}
	return false
}

// linearize checks a history; it returns "" if it is linearizable.
func (r *Run) linearize(ops []*tOp) string {
	l := &lin{owner: map[*oid.Node]int32{}, ids: map[*oid.Node]int32{}, seen: map[string]bool{}, budget: 100000}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	l.ops = ops
	for i, o := range ops {
		o.ka, o.kb = key(o.a), key(o.b)
		if o.kind == opAdd && o.node != nil {
			if k, dup := l.owner[o.node]; dup {
				return fmt.Sprintf("two AddNode calls returned the same node:\n  %s\n  %s", ops[k-1], o)
			}
			l.owner[o.node] = int32(i + 1)
		}
	}
	ok := l.search(make([]byte, (len(ops)+7)/8), 0, &lstate{})
	r.Checked()
	if l.budget < 0 {
		r.Probe("history too hard to decide")
		return ""
	}
	if ok {
		return ""
	}
	s := fmt.Sprintf("no order of these %d operations explains their outcomes (%d could be explained):", len(ops), l.best)
	for _, o := range ops {
		s += "\n  " + o.String()
	}
	return s
}
