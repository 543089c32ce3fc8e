package props

import (
	"fmt"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/oid"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif.local/sim/ref"
	"verif.local/sim/rt"
	"verif.local/sim/wire"
)

// ---- C15: a master and a subagent, end to end
//
// The subagent is what the library is for: it decodes requests, answers them
// from an oid.Tree and encodes the responses. Around it: a master with walkers
// and setters, application threads that change the tree, a network that
// loses, doubles, damages and delays frames and resets connections, and
// crashes of the subagent, after which it rebuilds its tree from what it has
// stored. Faults are finite; every request is repeated until it is answered.

// cell is the data of a node.
type cell struct {
	tag asn.Tag
	val interface{}
}

type mibVar struct {
	id      []uint32
	cell    cell // what it holds (constant unless settable)
	set     bool
	tried   int32 // greatest value sent
	acked   int32 // greatest value acknowledged
	durable int32 // what the subagent has stored
}

type subProc struct {
	tree    *oid.Tree
	sid     uint32
	tests   map[uint32]map[string]int32 // by transaction
	applied map[uint32]bool
}

type rpcCall struct {
	done  bool
	reply agentx.Pdu
}

func (c *rpcCall) Ready(int) bool { return c.done }

type agentSys struct {
	r         *Run
	fwd, back *link
	budget    int // faults left
	rate      int
	master    party
	vars      map[string]*mibVar
	order     []*mibVar
	churn     map[string]bool
	proc      *subProc
	boots     uint32
	sid       uint32 // what the master knows
	packet    uint32
	tid       uint32
	calls     map[uint32]*rpcCall
	users     int
	spawnEach bool
	reg       []uint32
	bulk      int // greatest number of repetitions
}

func cmpOid(a, b []uint32) int {
	for i := range a {
		if i >= len(b) {
			return 1
		}
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	if len(a) < len(b) {
		return -1
	}
	return 0
}

func related(a, b []uint32) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// transmit puts a frame on a link, or what becomes of it.
func (y *agentSys) transmit(l *link, frame []byte) {
	r := y.r
	if l.done {
		return
	}
	if y.budget > 0 && r.C.Chance(1, y.rate) {
		y.budget--
		switch r.C.Choose(4) {
		case 0:
			r.Fault("frame lost")
			return
		case 1:
			r.Fault("frame doubled")
			l.send(frameRec{}, append([]byte{}, frame...))
		case 2: // damage that can be noticed
			for n := 0; n < 4; n++ {
				g, kind := wire.Damage(r.C, frame, nil, nil, true)
				p, v, _ := ref.DecodeHeader(g[:20])
				if v != ref.Accept || int(p.PayloadSize) != len(g)-20 {
					continue
				}
				if v, _ = ref.DecodePayload(&p, g[20:]); v == ref.Reject {
					r.Fault("payload damaged: " + kindClass(kind))
					frame = g
					break
				}
			}
		case 3:
			g := append([]byte{}, frame...)
			g[[]int{0, 1, 3}[r.C.Choose(3)]] = 0xFF
			r.Fault("header destroyed")
			frame = g
		}
	}
	l.send(frameRec{}, frame)
}

// receive reads frames from a link until it is finished.
func (y *agentSys) receive(l *link, who party, handle func(p agentx.Pdu, ok bool)) {
	r := y.r
	hbuf, pbuf := wire.NewBuf(r.C), wire.NewBuf(r.C)
	for ci := 0; ; ci++ {
		k := l.accept(ci)
		if k == nil {
			return
		}
		for {
			h := hbuf.Get(ref.HeaderSize)
			if _, full := k.ReadFull(h); !full {
				break
			}
			p, ok := who.hdr(r, h)
			if !ok {
				k.Reset()
				break
			}
			if p.PayloadSize < 0 || p.PayloadSize > maxPayload {
				r.Fail("stream out of step", "header %x announces %d bytes", h, p.PayloadSize)
			}
			d := pbuf.Get(int(p.PayloadSize))
			if _, full := k.ReadFull(d); !full {
				break
			}
			ok = who.pay(r, &p, d)
			pbuf.Scribble(d, 0x3C)
			hbuf.Scribble(h, 0xC3)
			handle(p, ok)
		}
	}
}

// ---- the subagent

func (y *agentSys) boot() {
	r := y.r
	y.boots++
	p := &subProc{tree: oid.NewTree(), sid: y.boots * 1000, tests: map[uint32]map[string]int32{}, applied: map[uint32]bool{}}
	off := r.C.Choose(len(y.order))
	for i := range y.order {
		v := y.order[(i+off)%len(y.order)]
		var n *oid.Node
		r.Call("AddNode", func() { n = p.tree.AddNode(dupOid(v.id)) })
		if n == nil {
			r.Fail("node not added", "AddNode(%s) = nil", unkey(key(v.id)))
		}
		c := v.cell
		if v.set {
			c.val = v.durable
		}
		n.Data = &c
	}
	y.proc = p
}

func nodeOid(n *oid.Node) (id []uint32) {
	for ; n.Parent != nil; n = n.Parent {
		id = append(id, n.Subid)
		if len(id) > 1000 {
			break
		}
	}
	for i, j := 0, len(id)-1; i < j; i, j = i+1, j-1 {
		id[i], id[j] = id[j], id[i]
	}
	return
}

func (y *agentSys) next(p *subProc, start, end []uint32, incl bool) (vb asn.Varbind, ok bool) {
	r := y.r
	for n := 0; ; n++ {
		var node *oid.Node
		r.Call("GetNextNode", func() { node = p.tree.GetNextNode(start, end, incl) })
		if node == nil {
			return
		}
		id := nodeOid(node)
		if c, has := node.Data.(*cell); has {
			return asn.Varbind{Oid: id, Tag: c.tag, Value: c.val}, true
		}
		if n > 200 {
			r.Fail("walk does not advance", "GetNextNode keeps returning nodes without data, now %s", unkey(key(id)))
		}
		start, incl = id, false // what is left of a removed branch, or not filled yet
	}
}

func (y *agentSys) handle(p *subProc, q agentx.Pdu, ok bool) {
	r := y.r
	if p == nil {
		return // nobody there
	}
	rep := agentx.Pdu{Tag: agentx.TagResponse, Flags: q.Flags & agentx.FlagNetworkByteOrder, SessionId: q.SessionId,
		TransactionId: q.TransactionId, PacketId: q.PacketId}
	par := agentx.ResponseParams{SysUpTime: uint32(r.S.Now() / 10000)}
	switch {
	case !ok:
		par.Error = pduerror.ParseError
	case q.Tag == agentx.TagOpen:
		rep.SessionId = p.sid
	case q.SessionId != p.sid:
		par.Error = pduerror.NotOpened
	default:
		switch q.Tag {
		case agentx.TagGet:
			for _, g := range q.Ranges {
				var n *oid.Node
				r.Call("GetNode", func() { n = p.tree.GetNode(g.StartOid) })
				vb := asn.Varbind{Oid: g.StartOid, Tag: asn.TagNoSuchInstance}
				if n != nil {
					if c, has := n.Data.(*cell); has {
						vb.Tag, vb.Value = c.tag, c.val
					}
				}
				rep.Varbinds = append(rep.Varbinds, vb)
			}
		case agentx.TagGetNext:
			for _, g := range q.Ranges {
				vb, found := y.next(p, g.StartOid, g.EndOid, g.StartIncluded != 0)
				if !found {
					vb = asn.Varbind{Oid: g.StartOid, Tag: asn.TagEndOfMibView}
				}
				rep.Varbinds = append(rep.Varbinds, vb)
			}
		case agentx.TagGetBulk:
			b, _ := q.Params.(agentx.GetBulkParams)
			for i, g := range q.Ranges {
				times := int(b.MaxRepeatitions)
				if i < int(b.NonRepeaters) {
					times = 1
				}
				start, incl := g.StartOid, g.StartIncluded != 0
				for ; times > 0; times-- {
					vb, found := y.next(p, start, g.EndOid, incl)
					if !found {
						rep.Varbinds = append(rep.Varbinds, asn.Varbind{Oid: start, Tag: asn.TagEndOfMibView})
						break
					}
					rep.Varbinds = append(rep.Varbinds, vb)
					start, incl = vb.Oid, false
				}
			}
		case agentx.TagTestSet:
			t := map[string]int32{}
			for _, vb := range q.Varbinds {
				n, isInt := vb.Value.(int32)
				if v := y.vars[key(vb.Oid)]; v == nil || !v.set || !isInt {
					par.Error = pduerror.NotWritable
					break
				}
				t[key(vb.Oid)] = n
			}
			if par.Error == 0 {
				p.tests[q.TransactionId] = t
			}
		case agentx.TagCommitSet:
			t, has := p.tests[q.TransactionId]
			switch {
			case p.applied[q.TransactionId]: // done already
			case !has:
				par.Error = pduerror.CommitFailed
			default:
				for _, v := range y.order {
					n, has := t[key(v.id)]
					if !has {
						continue
					}
					var node *oid.Node
					r.Call("GetNode", func() { node = p.tree.GetNode(dupOid(v.id)) })
					if node == nil {
						r.Fail("variable lost", "GetNode(%s) = nil", unkey(key(v.id)))
					}
					if y.proc != p { // crashed meanwhile
						return
					}
					if p.applied[q.TransactionId] { // the same request twice
						break
					}
					v.durable = n
					node.Data = &cell{asn.TagInteger32, n}
				}
				p.applied[q.TransactionId] = true
			}
		case agentx.TagCleanupSet, agentx.TagUndoSet:
			delete(p.tests, q.TransactionId)
		case agentx.TagRegister:
			if g, is := q.Params.(agentx.RegisterParams); !is || !related(g.Subtree, y.reg) || len(g.Subtree) != len(y.reg) {
				par.Error = pduerror.RequestDenied
			}
		}
	}
	rep.Params = par
	frame, can := r.encode(rep)
	if !can {
		r.Fail("valid PDU refused", "encoder refuses the response %s", describe(rep))
	}
	if y.proc == p {
		y.transmit(y.back, frame)
	}
}

// ---- the master

func (y *agentSys) rpc(q agentx.Pdu) agentx.Pdu {
	r := y.r
	y.packet++
	q.PacketId = y.packet
	c := &rpcCall{}
	y.calls[q.PacketId] = c
	defer delete(y.calls, q.PacketId)
	wait := int64(4000)
	for n := 0; ; n++ {
		if n > 80 {
			r.Fail("no progress", "no answer to %s after %d attempts", describe(q), n)
		}
		if q.Tag != agentx.TagOpen {
			q.SessionId = y.sid
		}
		frame, ok := y.master.enc(r, q)
		if !ok {
			r.Fail("valid PDU refused", "encoder refuses the request %s", describe(q))
		}
		y.transmit(y.fwd, frame)
		r.S.BlockUntil(c, 0, r.S.Now()+wait)
		if !c.done {
			r.Fault("request repeated")
			if wait < 1<<23 {
				wait *= 2
			}
			continue
		}
		p, is := c.reply.Params.(agentx.ResponseParams)
		if !is || c.reply.TransactionId != q.TransactionId {
			r.Fail("wrong answer", "%s answered with %s", describe(q), describe(c.reply))
		}
		switch p.Error {
		case pduerror.ParseError:
			r.Probe("ParseError answered")
			c.done = false
			continue
		case pduerror.NotOpened:
			r.Probe("session reopened")
			c.done = false
			y.open()
			continue
		}
		r.Checked()
		return c.reply
	}
}

func (y *agentSys) open() {
	rep := y.rpc(agentx.Pdu{Tag: agentx.TagOpen, Flags: y.order10(), Params: agentx.OpenParams{Timeout: 5, Oid: y.reg, Description: "sub"}})
	if rep.SessionId%1000 != 0 || rep.SessionId == 0 || rep.SessionId > 1000*y.boots {
		y.r.Fail("wrong answer", "Open answered with session %d", rep.SessionId)
	}
	y.sid = rep.SessionId
}

func (y *agentSys) order10() agentx.Flags {
	return agentx.Flags(16 * y.r.C.Choose(2))
}

func (y *agentSys) clean(q agentx.Pdu, rep agentx.Pdu) {
	if p := rep.Params.(agentx.ResponseParams); p.Error != 0 || p.Index != 0 {
		y.r.Fail("wrong answer", "%s answered with error %d", describe(q), uint16(p.Error))
	}
}

// value checks the value of a variable as it was read between two moments.
func (y *agentSys) value(vb asn.Varbind, v *mibVar, acked int32) {
	r := y.r
	r.Checked()
	if v.set {
		n, is := vb.Value.(int32)
		if !is || vb.Tag != asn.TagInteger32 || n < acked || n > v.tried {
			r.Fail("wrong value", "%s: %v, the last acknowledged is %d, the last sent %d", unkey(key(v.id)), vb.Value, acked, v.tried)
		}
		return
	}
	a := agentx.Pdu{Tag: 12, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: v.id, Tag: v.cell.tag, Value: v.cell.val}}}
	b := agentx.Pdu{Tag: 12, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{vb}}
	if s := ref.Diff(a, b); s != "" {
		r.Fail("wrong value", "%s: %s", unkey(key(v.id)), s)
	}
}

func (y *agentSys) ackedNow() map[*mibVar]int32 {
	m := map[*mibVar]int32{}
	for _, v := range y.order {
		if v.set {
			m[v] = v.acked
		}
	}
	return m
}

func (y *agentSys) walk(name string, lo, hi []uint32, incl bool, mode int) {
	r := y.r
	seen := map[string]bool{}
	cur, in := lo, incl
	for n := 0; ; n++ {
		if n > 600 {
			r.Fail("walk does not end", "%s: %d steps", name, n)
		}
		r.pause()
		q := agentx.Pdu{Tag: agentx.TagGetNext, Flags: y.order10(), TransactionId: uint32(n), Params: agentx.NoParams{}}
		g := agentx.SearchRange{StartOid: cur, EndOid: hi}
		if in && len(cur) > 0 {
			g.StartIncluded = 1
		}
		q.Ranges = []agentx.SearchRange{g}
		if mode == 1 || mode == 2 && r.C.Choose(2) == 1 {
			q.Tag = agentx.TagGetBulk
			q.Params = agentx.GetBulkParams{MaxRepeatitions: int16(1 + r.C.Choose(y.bulk))}
		}
		probe := (*mibVar)(nil)
		if r.C.Choose(4) == 3 { // together with something else
			probe = y.order[r.C.Choose(len(y.order))]
			q.Ranges = append(q.Ranges, agentx.SearchRange{StartOid: probe.id, StartIncluded: 1})
		}
		acked := y.ackedNow()
		rep := y.rpc(q)
		y.clean(q, rep)
		vbs := rep.Varbinds
		if probe != nil {
			k := 1
			if b, is := q.Params.(agentx.GetBulkParams); is {
				for k = 0; k < len(vbs) && k < int(b.MaxRepeatitions); k++ {
					if vbs[k].Tag == asn.TagEndOfMibView {
						k++
						break
					}
				}
			}
			if k >= len(vbs) || cmpOid(vbs[k].Oid, probe.id) != 0 {
				r.Fail("wrong answer", "%s: %s answered with %s", name, describe(q), describe(rep))
			}
			y.value(vbs[k], probe, acked[probe])
			vbs = vbs[:k]
		}
		if len(vbs) == 0 {
			r.Fail("wrong answer", "%s: %s answered with %s", name, describe(q), describe(rep))
		}
		for _, vb := range vbs {
			if vb.Tag == asn.TagEndOfMibView {
				if cmpOid(vb.Oid, cur) != 0 {
					r.Fail("wrong answer", "%s: end of view at %s, asked for %s", name, unkey(key(vb.Oid)), unkey(key(cur)))
				}
				for _, v := range y.order {
					c := cmpOid(v.id, lo)
					if (c > 0 || c == 0 && incl) && (len(hi) == 0 || cmpOid(v.id, hi) < 0) && !seen[key(v.id)] {
						r.Fail("variable missed", "%s from %s to %s: %s was not seen", name, unkey(key(lo)), unkey(key(hi)), unkey(key(v.id)))
					}
				}
				r.S.Observe("%s saw %d", name, len(seen))
				return
			}
			if c := cmpOid(vb.Oid, cur); c < 0 || c == 0 && !in || len(hi) > 0 && cmpOid(vb.Oid, hi) >= 0 {
				r.Fail("walk out of order", "%s: %s after %s, up to %s", name, unkey(key(vb.Oid)), unkey(key(cur)), unkey(key(hi)))
			}
			k := key(vb.Oid)
			if v := y.vars[k]; v != nil {
				y.value(vb, v, acked[v])
				seen[k] = true
			} else if !y.churn[k] {
				r.Fail("phantom variable", "%s: %s does not exist", name, unkey(k))
			}
			cur, in = vb.Oid, false
		}
	}
}

func (y *agentSys) setter(vs []*mibVar, rounds int) {
	r := y.r
	for ; rounds > 0; rounds-- {
		r.pause()
		var vbs []asn.Varbind
		for _, v := range vs {
			v.tried++
			vbs = append(vbs, asn.Varbind{Oid: v.id, Tag: asn.TagInteger32, Value: v.tried})
		}
		for n := 0; ; n++ {
			if n > 40 {
				r.Fail("no progress", "a set does not get through")
			}
			y.tid++
			tid := y.tid
			q := agentx.Pdu{Tag: agentx.TagTestSet, Flags: y.order10(), TransactionId: tid, Params: agentx.NoParams{}, Varbinds: vbs}
			y.clean(q, y.rpc(q))
			q = agentx.Pdu{Tag: agentx.TagCommitSet, Flags: y.order10(), TransactionId: tid, Params: agentx.NoParams{}}
			rep := y.rpc(q)
			if rep.Params.(agentx.ResponseParams).Error == pduerror.CommitFailed {
				r.Probe("commit failed: transaction repeated")
				continue
			}
			y.clean(q, rep)
			q.Tag = agentx.TagCleanupSet
			y.clean(q, y.rpc(q))
			break
		}
		for _, v := range vs {
			v.acked = v.tried
		}
		q := agentx.Pdu{Tag: agentx.TagGet, Flags: y.order10(), Params: agentx.NoParams{}}
		for _, v := range vs {
			q.Ranges = append(q.Ranges, agentx.SearchRange{StartOid: v.id})
		}
		rep := y.rpc(q)
		y.clean(q, rep)
		if len(rep.Varbinds) != len(vs) {
			r.Fail("wrong answer", "%s answered with %s", describe(q), describe(rep))
		}
		for i, v := range vs {
			if cmpOid(rep.Varbinds[i].Oid, v.id) != 0 {
				r.Fail("wrong answer", "%s answered with %s", describe(q), describe(rep))
			}
			y.value(rep.Varbinds[i], v, v.acked)
		}
		r.S.Observe("set %d", vs[0].acked)
	}
}

func (y *agentSys) user(name string, f func()) {
	y.users++
	y.r.S.Spawn(name, func() {
		defer func() {
			if y.users--; y.users == 0 {
				y.fwd.finish()
				y.back.finish()
			}
		}()
		f()
	})
}

func setupC15(r *Run) func() {
	r.G.Small = true
	y := &agentSys{r: r, fwd: &link{r: r}, back: &link{r: r}, vars: map[string]*mibVar{}, churn: map[string]bool{}, calls: map[uint32]*rpcCall{}}
	c := r.C
	y.reg = [][]uint32{{1, 3, 6, 1, 4, 1, 9999}, {1, 3, 6, 1, 2, 1}, {1, 3, 6, 1, 300}, {2, 5}, {1, 3, 6, 1}, {0}}[c.Choose(6)]
	y.budget = []int{0, 3, 10, 25}[c.Choose(4)]
	y.rate = 2 + c.Choose(8)
	y.spawnEach = c.Choose(2) == 1
	switch c.Choose(3) {
	case 0:
		y.master = libParty
	default:
		opt := ref.Opt{NoPrefix: c.Choose(2) == 1}
		y.master = party{
			enc: refParty(opt).enc,
			hdr: func(r *Run, h []byte) (agentx.Pdu, bool) {
				p, v, _ := ref.DecodeHeader(h)
				return p, v == ref.Accept
			},
			pay: func(r *Run, p *agentx.Pdu, d []byte) bool {
				v, _ := ref.DecodePayload(p, d)
				return v == ref.Accept
			},
		}
	}
	// the MIB
	alpha := make([]uint32, 2+c.Choose(4))
	for i := range alpha {
		alpha[i] = subidPool[c.Choose(len(subidPool))]
	}
	var all [][]uint32
	newID := func() []uint32 {
		for n := 0; n < 6; n++ {
			id := append([]uint32{}, y.reg...)
			for k := 1 + c.Choose(4); k > 0; k-- {
				id = append(id, alpha[c.Choose(len(alpha))])
			}
			free := true
			for _, o := range all {
				free = free && !related(o, id)
			}
			if free {
				all = append(all, id)
				return id
			}
		}
		return nil
	}
	nvars := 1 + c.Choose(8)
	y.bulk = 5
	if c.Chance(1, 80) { // a table
		rows, cols := 5+c.Choose(60), 1+c.Choose(4)
		nvars, y.bulk = rows*cols, 40
		step := []uint32{1, 7, 256, 0x03000000}[c.Choose(4)]
		deep := c.Choose(3)
		st := rt.NewStream(c.Word())
		var ids [][]uint32
		for i := 0; i < rows; i++ {
			for j := 0; j < cols; j++ {
				id := append(append([]uint32{}, y.reg...), 1, uint32(j+1))
				for k := 0; k < deep; k++ {
					id = append(id, uint32(i/7+k))
				}
				ids = append(ids, append(id, uint32(i)*step))
			}
		}
		for i := range ids {
			j := int(st.Next() % uint64(i+1))
			ids[i], ids[j] = ids[j], ids[i]
		}
		all = ids
		newID = func() []uint32 {
			if len(ids) == 0 {
				return nil
			}
			id := ids[0]
			ids = ids[1:]
			return id
		}
		nvars -= min(nvars-1, c.Choose(6))
		r.Probe("table")
	}
	for n := nvars; n > 0 || len(y.order) == 0; n-- {
		id := newID()
		if id == nil {
			break
		}
		v := &mibVar{id: id}
		if c.Choose(3) == 2 && len(y.order) < 8 {
			v.set = true
			v.cell = cell{asn.TagInteger32, int32(0)}
		} else {
			x := r.G.Varbind()
			if byte(x.Tag) >= 128 {
				x.Tag, x.Value = asn.TagNull, nil
			}
			v.cell = cell{x.Tag, x.Value}
		}
		y.vars[key(id)] = v
		y.order = append(y.order, v)
	}
	var churn [][]uint32
	for n := c.Choose(6); n > 0; n-- {
		if id := newID(); id != nil {
			churn = append(churn, id)
			y.churn[key(id)] = true
		}
	}
	y.boot()

	r.S.Spawn("subagent", func() {
		y.receive(y.fwd, libParty, func(p agentx.Pdu, ok bool) {
			proc := y.proc
			if y.spawnEach {
				r.S.Spawn("handler", func() { y.handle(proc, p, ok) })
			} else {
				y.handle(proc, p, ok)
			}
		})
	})
	r.S.Spawn("responses", func() {
		y.receive(y.back, y.master, func(p agentx.Pdu, ok bool) {
			if ok {
				if c := y.calls[p.PacketId]; c != nil && !c.done {
					c.reply, c.done = p, true
				}
			}
		})
	})
	for i, n := 0, 1+c.Choose(2); i < n; i++ {
		name := fmt.Sprintf("walker%d", i)
		lo, hi, incl, mode := dupOid(y.reg), []uint32(nil), c.Choose(2) == 1, c.Choose(3)
		switch c.Choose(4) {
		case 1:
			lo = nil
		case 2:
			lo = dupOid(all[c.Choose(len(all))])
		case 3:
			hi = dupOid(all[c.Choose(len(all))])
		}
		if len(lo) == 0 {
			incl = false
		}
		y.user(name, func() {
			if i == 0 {
				y.open()
				q := agentx.Pdu{Tag: agentx.TagRegister, Flags: y.order10(), Params: agentx.RegisterParams{Priority: 127, Subtree: y.reg}}
				y.clean(q, y.rpc(q))
			}
			y.walk(name, lo, hi, incl, mode)
		})
	}
	var set []*mibVar
	for _, v := range y.order {
		if v.set {
			set = append(set, v)
		}
	}
	for len(set) > 0 && len(set) <= 8 {
		k := 1 + c.Choose(len(set))
		vs := set[:k]
		set = set[k:]
		rounds := c.Choose(3)
		y.user("setter", func() { y.setter(vs, rounds) })
	}
	if len(churn) > 0 {
		r.S.Spawn("application", func() {
			for n := 4 + c.Choose(20); n > 0; n-- {
				r.pause()
				p := y.proc
				if p == nil {
					continue
				}
				id := churn[c.Choose(len(churn))]
				if c.Choose(2) == 0 {
					var n *oid.Node
					r.Call("AddNode", func() { n = p.tree.AddNode(dupOid(id)) })
					if n != nil && c.Choose(4) != 3 {
						n.Data = &cell{asn.TagOctetString, "churn"}
					}
				} else {
					r.Call("RemoveNode", func() { p.tree.RemoveNode(dupOid(id)) })
				}
			}
		})
	}
	if y.budget > 0 && c.Choose(2) == 1 {
		r.S.Spawn("chaos", func() {
			for n := 1 + c.Choose(3); n > 0 && !y.fwd.done; n-- {
				r.S.Sleep(int64(1 + c.Choose([]int{300, 3000, 30000}[c.Choose(3)])))
				if y.fwd.done {
					return
				}
				reset := func(l *link) {
					if m := len(l.conns); m > 0 {
						l.conns[m-1].Reset()
					}
				}
				switch c.Choose(4) {
				case 0:
					reset(y.fwd)
				case 1:
					reset(y.back)
				default:
					r.Fault("subagent crashed")
					y.proc = nil
					reset(y.fwd)
					reset(y.back)
					r.S.Sleep(int64(1 + c.Choose(20000)))
					y.boot()
				}
			}
		})
	}
	r.trivial = y.budget == 0 && len(churn) == 0
	return func() {
		for _, v := range y.order {
			if v.set && (v.acked != v.tried || v.durable != v.acked) {
				r.Fail("wrong value", "%s: acknowledged %d, stored %d", unkey(key(v.id)), v.acked, v.durable)
			}
		}
	}
}
