// Package gen draws PDUs and object identifiers from a run's choices. Choice
// 0 is everywhere the simplest alternative, so that minimised runs are small.
package gen

import (
	"fmt"
	"math"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

// G generates; its fields are the tuning knobs drawn once per run.
type G struct {
	C        *rt.Choices
	tags     []byte
	maxItems int // upper bound on ranges / varbinds of a PDU
	bigStr   int // one string out of bigStr is long (0: never)
	longOid  int // one oid out of longOid is long (0: never)
	vbTags   []int
	order    int // 0 mixed, 1 always network order, 2 never
	Small    bool
	tiny     bool // many items, each of them small
	last     []uint32
}

// VbTags are the value types of RFC 2741.
var VbTags = []int{2, 4, 6, 64, 65, 66, 67, 68, 70, 5, 128, 129, 130}

// New draws the knobs of a run.
func New(c *rt.Choices) *G {
	g := &G{C: c}
	switch c.Choose(4) {
	case 0, 1:
		for t := byte(1); t <= 18; t++ {
			g.tags = append(g.tags, t)
		}
	case 2: // those with a list
		g.tags = []byte{18, 5, 6, 7, 8, 12, 14, 15}
	case 3: // a random few
		for n := 1 + c.Choose(3); n > 0; n-- {
			g.tags = append(g.tags, byte(1+c.Choose(18)))
		}
	}
	g.maxItems = []int{3, 1, 6, 12, 40}[c.Choose(5)]
	if c.Chance(1, 50) {
		g.tiny, g.maxItems = true, 300
	}
	g.bigStr = []int{40, 0, 10}[c.Choose(3)]
	g.longOid = []int{30, 0, 6}[c.Choose(3)]
	switch c.Choose(3) {
	case 0, 1:
		g.vbTags = VbTags
	case 2:
		for n := 1 + c.Choose(3); n > 0; n-- {
			g.vbTags = append(g.vbTags, VbTags[c.Choose(len(VbTags))])
		}
	}
	g.order = []int{0, 0, 1, 2}[c.Choose(4)]
	return g
}

var words = []uint32{0, 1, 2, 3, 4, 0x7F, 0x80, 0xFF, 0x100, 0x101, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x01020304,
	0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF}

// U32 is a boundary-biased 32-bit value.
func (g *G) U32() uint32 {
	n := g.C.Choose(len(words) + 10)
	if n < len(words) {
		return words[n]
	}
	if n >= len(words)+8 {
		return uint32(g.C.Num())
	}
	return uint32(rt.NewStream(g.C.Word()).Next())
}

// U16 is a boundary-biased 16-bit value.
func (g *G) U16() uint16 {
	v := g.U32()
	return uint16(v ^ v>>16)
}

// U64 is a boundary-biased 64-bit value.
func (g *G) U64() uint64 {
	switch g.C.Choose(6) {
	case 5:
		return g.C.Num()
	case 0:
		return uint64(g.U32())
	case 1:
		return uint64(g.U32())<<32 | uint64(g.U32())
	case 2:
		return math.MaxUint64
	case 3:
		return 0x0102030405060708
	}
	return rt.NewStream(g.C.Word()).Next()
}

// U8 is a boundary-biased byte.
func (g *G) U8() byte { return byte(g.U32()) }

// Bytes returns an octet string.
func (g *G) Bytes() []byte {
	n := 0
	if g.C.Chance(1, 32) {
		return g.wordy()
	}
	if g.bigStr > 0 && g.C.Chance(1, g.bigStr) {
		n = []int{255, 256, 257, 258, 259, 600, 1023, 1500, 4096, 32767, 32768, 65535, 65536, 65537,
			511, 512, 513, 1024, 1025, 2047, 2048, 2049, 4095, 4097, 8191, 8192, 16383, 16384, 0, 0}[g.C.Choose(30)]
		if n == 0 && g.C.Choose(2) == 1 {
			n = g.C.NumTo(70000, 600)
		}
		if n == 0 {
			n = 600 + g.C.Choose(4000)
		}
		if g.Small && n > 600 {
			n = 600
		}
	} else {
		n = g.C.Choose(14)
		if n == 13 && g.C.Choose(2) == 1 {
			n = 13 + g.C.Choose(260)
		}
	}
	if g.tiny && n > 5 {
		n = 5
	}
	b := make([]byte, n)
	w := g.C.Word()
	s := rt.NewStream(w)
	if w != 0 && w%16 < 3 {
		fill := []byte{0, 0xFF, ' '}[w%16]
		for i := range b {
			b[i] = fill
		}
		if w%32 < 16 && n > 0 {
			b[s.Next()%uint64(n)] = byte(s.Next())
		}
		return b
	}
	for i := range b {
		if w == 0 {
			b[i] = 'a' + byte(i%26)
		} else {
			b[i] = byte(s.Next())
			if b[i] == 0 && i >= n-4 && w%4 != 0 {
				b[i] = 0xA5
			}
		}
	}
	return b
}

// wordy is an octet string of a length or with a text that the sources mention.
func (g *G) wordy() []byte {
	c := g.C
	if k := len(rt.Dict.Strs); k > 0 && c.Choose(2) == 1 {
		s := rt.Dict.Strs[c.Choose(k)]
		switch c.Choose(6) {
		case 3:
			s = string('a'+byte(c.Choose(26))) + s
		case 4:
			s += string(byte(c.Choose(128)))
		case 5:
			s += s
		}
		return []byte(s)
	}
	top := 700
	if g.tiny {
		top = 5
	}
	b := make([]byte, c.NumTo(top, 0))
	s := rt.NewStream(c.Word())
	for i := range b {
		b[i] = byte(s.Next())
	}
	if n := len(b); n > 0 && c.Choose(2) == 1 {
		b[c.Choose(2)*(n-1)] = byte(c.Num())
	}
	return b
}

// Subid is a boundary-biased sub-identifier.
func (g *G) Subid() uint32 {
	if g.C.Choose(3) == 0 {
		return uint32(g.C.Choose(12))
	}
	return g.U32()
}

func (g *G) many(id []uint32, n int) []uint32 {
	if n > 12 {
		s := rt.NewStream(g.C.Word())
		for i := 0; i < n; i++ {
			id = append(id, uint32(s.Next())>>(s.Next()%32))
		}
		return id
	}
	for i := 0; i < n; i++ {
		id = append(id, g.Subid())
	}
	return id
}

// Oid returns an object identifier of at most 128 sub-identifiers.
func (g *G) Oid() []uint32 {
	c := g.C
	if len(g.last) > 0 && c.Chance(1, 8) { // related to an earlier one
		id := append([]uint32{}, g.last...)
		switch c.Choose(4) {
		case 1:
			id = id[:len(id)-1]
		case 2:
			if len(id) < 128 {
				id = append(id, g.Subid())
			}
		case 3:
			id[c.Choose(len(id))]++
		}
		return id
	}
	id := g.newOid()
	g.last = id
	return append([]uint32(nil), id...)
}

func (g *G) newOid() []uint32 {
	c := g.C
	if g.longOid > 0 && !g.tiny && c.Chance(1, g.longOid) {
		n := []int{20, 64, 100, 122, 123, 124, 127, 128, 0, 0, 1}[c.Choose(11)]
		if n == 0 {
			n = 6 + c.Choose(123)
		} else if n == 1 {
			n = max(6, c.NumTo(128, 6))
		}
		if c.Choose(2) == 1 {
			id := []uint32{1, 3, 6, 1, uint32(1 + c.Choose(255))}
			return g.many(id, n-5)
		}
		return g.many(nil, n)
	}
	switch c.Choose(10) {
	case 9: // one that the sources mention
		var id []uint32
		if k := len(rt.Dict.Oids); k > 0 {
			id = append(id, rt.Dict.Oids[c.Choose(k)]...)
		}
		if len(id) > 100 {
			id = id[:100]
		}
		return g.many(id, c.Choose(4))
	case 0: // internet, a usual one
		id := []uint32{1, 3, 6, 1, uint32([]int{2, 4, 1, 3, 6}[c.Choose(5)])}
		return g.many(id, c.Choose(6))
	case 1:
		return nil
	case 2:
		return []uint32{}
	case 3:
		return g.many(nil, 1+c.Choose(7))
	case 4: // internet, prefix byte at its boundaries and just outside
		x := []uint32{1, 2, 127, 128, 254, 255, 0, 256, 257, 512, 0x102, 0x1FF, 65536 + 2, 0xFFFFFFFF}[c.Choose(14)]
		return g.many([]uint32{1, 3, 6, 1, x}, c.Choose(4))
	case 5: // exactly at the compression boundary
		return []uint32{1, 3, 6, 1, uint32(c.Choose(258))}
	case 6: // shorter than the prefix
		return []uint32{1, 3, 6, 1}[:1+c.Choose(4)]
	case 7: // nearly the prefix
		id := []uint32{1, 3, 6, 1, uint32(1 + c.Choose(6)), 1}
		id[c.Choose(4)] += []uint32{1, 256, 0xFFFFFFFF, 1 << 31}[c.Choose(4)]
		return id[:4+c.Choose(3)]
	default:
		return []uint32{1, 3, 6, 1, 4, 1, 9999, uint32(c.Choose(5)), uint32(c.Choose(5))}
	}
}

// Value returns a value of the given type.
func (g *G) Value(tag int) interface{} {
	switch tag {
	case 2:
		return int32(g.U32())
	case 4:
		return string(g.Bytes())
	case 6:
		id := g.Oid()
		if len(id) == 0 && g.C.Choose(2) == 1 {
			return []uint32(nil)
		}
		return append([]uint32{}, id...)
	case 64:
		return [4]byte{g.U8(), g.U8(), g.U8(), g.U8()}
	case 65, 66, 67:
		return g.U32()
	case 68:
		b := g.Bytes()
		if len(b) == 0 && g.C.Choose(2) == 1 {
			return []byte(nil)
		}
		return b
	case 70:
		return g.U64()
	}
	return nil
}

// Varbind returns a valid varbind.
func (g *G) Varbind() asn.Varbind {
	tag := g.vbTags[g.C.Choose(len(g.vbTags))]
	return asn.Varbind{Oid: g.Oid(), Tag: asn.Tag(tag), Value: g.Value(tag)}
}

// Range returns a valid search range.
func (g *G) Range() agentx.SearchRange {
	r := agentx.SearchRange{StartOid: g.Oid(), EndOid: g.Oid()}
	if len(r.StartOid) > 0 {
		r.StartIncluded = byte(g.C.Choose(2))
	}
	return r
}

// Params returns params for the given PDU type.
func (g *G) Params(tag byte) agentx.PayloadParams {
	switch tag {
	case 1:
		return agentx.OpenParams{Timeout: g.U8(), Oid: g.Oid(), Description: string(g.Bytes())}
	case 2:
		return agentx.CloseParams{Reason: agentx.CloseReason(1 + g.C.Choose(6))}
	case 3:
		p := agentx.RegisterParams{Timeout: g.U8(), Priority: g.U8(), Subtree: g.Oid()}
		if g.C.Choose(2) == 1 {
			p.RangeSubid = g.U8()
		}
		p.UpperBound = g.U32()
		return p
	case 4:
		p := agentx.UnregisterParams{Priority: g.U8(), Subtree: g.Oid()}
		if g.C.Choose(2) == 1 {
			p.RangeSubid = g.U8()
		}
		p.UpperBound = g.U32()
		return p
	case 7:
		return agentx.GetBulkParams{NonRepeaters: int16(g.U16() & 0x7FFF), MaxRepeatitions: int16(g.U16() & 0x7FFF)}
	case 16:
		return agentx.AddAgentCapsParams{Oid: g.Oid(), Description: string(g.Bytes())}
	case 17:
		return agentx.RemoveAgentCapsParams{Oid: g.Oid()}
	case 18:
		e := uint16(0)
		switch g.C.Choose(4) {
		case 0:
			e = uint16(g.C.Choose(19))
		case 1:
			e = uint16(256 + g.C.Choose(13))
		default:
			e = g.U16()
		}
		return agentx.ResponseParams{SysUpTime: g.U32(), Error: pduerror.Error(e), Index: int16(g.U16())}
	}
	return agentx.NoParams{}
}

func (g *G) items() int {
	if g.maxItems > 6 && g.C.Choose(4) != 3 {
		return g.C.Choose(4)
	}
	if g.tiny && g.C.Choose(2) == 1 {
		return []int{127, 128, 129, 254, 255, 256, 257, 258, 63, 64, 65, 100}[g.C.Choose(12)]
	}
	if g.maxItems > 6 && g.C.Choose(8) == 7 {
		return g.C.NumTo(min(300, 4*g.maxItems), 1)
	}
	return g.C.Choose(g.maxItems + 1)
}

// Pdu returns a PDU that AgentX can express. Fields that the PDU type does
// not carry are sometimes set: the documentation says they are ignored.
func (g *G) Pdu() agentx.Pdu {
	c := g.C
	tag := g.tags[c.Choose(len(g.tags))]
	p := agentx.Pdu{Tag: agentx.PduTag(tag), Params: g.Params(tag)}
	al := ref.AllowedFlags(tag)
	var fl byte
	for b := byte(1); b <= 0x10; b <<= 1 {
		if al&b != 0 && c.Choose(2) == 1 {
			fl |= b
		}
	}
	switch g.order {
	case 1:
		fl |= 0x10
	case 2:
		fl &^= 0x10
	}
	p.Flags = agentx.Flags(fl)
	p.SessionId, p.TransactionId, p.PacketId = g.U32(), g.U32(), g.U32()
	if fl&0x08 != 0 {
		p.Context = string(g.Bytes())
	}
	junk := c.Chance(1, 12)
	if ref.HasRanges(tag) || junk {
		for n := g.items(); n > 0; n-- {
			p.Ranges = append(p.Ranges, g.Range())
		}
	}
	if ref.HasVarbinds(tag) || junk {
		for n := g.items(); n > 0; n-- {
			p.Varbinds = append(p.Varbinds, g.Varbind())
		}
	}
	if junk {
		p.PayloadSize = int32(g.U32())
		if fl&0x08 == 0 {
			p.Context = string(g.Bytes())
		}
	}
	return p
}

type (
	embedded    struct{ agentx.PayloadParams }
	namedInt    int32
	namedUint   uint32
	namedUint64 uint64
	namedString string
	namedBytes  []byte
	namedOid    []uint32
	namedIp     [4]byte
	stringer    struct{}
)

func (stringer) String() string { panic("String of a value nobody asked for") }

// odd is a value that looks like v but is of another Go type, or one of
// any type.
func (g *G) odd(v interface{}) interface{} {
	c := g.C
	if c.Choose(3) == 2 {
		switch x := v.(type) {
		case int32:
			return []interface{}{int(x), int64(x), int16(x), uint32(x), namedInt(x), &x, float64(x)}[c.Choose(7)]
		case uint32:
			return []interface{}{int(x), uint(x), int32(x), uint64(x), uint16(x), namedUint(x), &x}[c.Choose(7)]
		case uint64:
			return []interface{}{int64(x), uint(x), uint32(x), namedUint64(x), &x}[c.Choose(5)]
		case string:
			return []interface{}{[]byte(x), []rune(x), namedString(x), namedBytes(x), &x}[c.Choose(5)]
		case []uint32:
			if len(x) > 200 {
				return namedOid(x)
			}
			ints := make([]int, len(x))
			for i := range x {
				ints[i] = int(x[i])
			}
			return []interface{}{namedOid(x), ints, &x, append([]interface{}{}, x)}[c.Choose(4)]
		case [4]byte:
			return []interface{}{x[:], string(x[:]), namedIp(x), &x, [16]byte{x[0]}, [3]byte{x[0]}}[c.Choose(6)]
		}
	}
	return []interface{}{nil, int(5), "str", []byte{1}, []uint32{1}, uint32(7), int32(-1),
		uint64(9), [4]byte{1}, int64(3), true, (*int32)(nil), struct{}{}, stringer{}, error(nil),
		[]uint32(nil), (*string)(nil), 'x', 1.5, []string{"a"}}[c.Choose(20)]
}

// Misuse turns a valid PDU into one that may not be expressible, and says how.
func (g *G) Misuse(p *agentx.Pdu) string {
	c := g.C
	long := func() []uint32 {
		n := []int{129, 134, 133, 132, 130, 200, 250, 255, 256, 257, 260, 261, 262, 300, 384, 512, 517, 1000}[c.Choose(18)]
		if c.Choose(4) == 3 {
			n = 129 + c.Choose(600)
		}
		if c.Choose(2) == 1 {
			return g.many([]uint32{1, 3, 6, 1, uint32(1 + c.Choose(255))}, n-5)
		}
		return g.many(nil, n)
	}
	switch c.Choose(11) {
	case 0:
		p.Tag = agentx.PduTag([]byte{0, 19, 20, 127, 128, 255, 19 + byte(c.Choose(237))}[c.Choose(7)])
		return "unknown type"
	case 1:
		p.Flags ^= agentx.Flags(1 << c.Choose(8))
		return "flag toggled"
	case 2:
		p.Flags = agentx.Flags(g.U8())
		return "arbitrary flags"
	case 3:
		p.Params = g.Params(byte(1 + c.Choose(18)))
		return "params of some type"
	case 4:
		switch c.Choose(4) {
		case 3:
			switch q := p.Params.(type) {
			case agentx.OpenParams:
				p.Params = []agentx.PayloadParams{&q, embedded{q}, (*agentx.OpenParams)(nil)}[c.Choose(3)]
			case agentx.CloseParams:
				p.Params = &q
			case agentx.RegisterParams:
				p.Params = &q
			case agentx.UnregisterParams:
				p.Params = &q
			case agentx.GetBulkParams:
				p.Params = &q
			case agentx.AddAgentCapsParams:
				p.Params = &q
			case agentx.RemoveAgentCapsParams:
				p.Params = &q
			case agentx.ResponseParams:
				p.Params = &q
			default:
				p.Params = []agentx.PayloadParams{&agentx.NoParams{}, embedded{q}, (*agentx.NoParams)(nil)}[c.Choose(3)]
			}
			return "pointer to params"
		default:
			p.Params = nil
			return "nil params"
		}
	case 5:
		if ref.HasVarbinds(byte(p.Tag)) && len(p.Varbinds) == 0 {
			p.Varbinds = append(p.Varbinds, g.Varbind())
		}
		if n := len(p.Varbinds); n > 0 {
			i := c.Choose(n)
			p.Varbinds[i].Value = g.odd(p.Varbinds[i].Value)
		}
		return "value of some type"
	case 6:
		if ref.HasVarbinds(byte(p.Tag)) && len(p.Varbinds) == 0 {
			p.Varbinds = append(p.Varbinds, g.Varbind())
		}
		if n := len(p.Varbinds); n > 0 {
			p.Varbinds[c.Choose(n)].Tag = asn.Tag([]int{0, 1, 3, 0x30, 7, 63, 69, 71, 127, 131, 255, int(g.U8())}[c.Choose(12)])
		}
		return "unknown value type"
	case 7:
		p.Tag, p.Flags = 7, p.Flags&0x18
		p.Params = agentx.GetBulkParams{NonRepeaters: int16(g.U16()), MaxRepeatitions: int16(g.U16())}
		return "any GetBulk numbers"
	case 8, 9:
		if len(p.Ranges)+len(p.Varbinds) == 0 {
			if ref.HasRanges(byte(p.Tag)) {
				p.Ranges = append(p.Ranges, g.Range())
			} else if ref.HasVarbinds(byte(p.Tag)) {
				p.Varbinds = append(p.Varbinds, g.Varbind())
			}
		}
		g.setOid(p, long())
		return "long object identifier"
	default:
		if len(p.Varbinds) > 0 {
			p.Varbinds[0].Tag, p.Varbinds[0].Value = 6, long()
		}
		return "long object identifier value"
	}
}

// setOid puts id in some place of p that holds an object identifier.
func (g *G) setOid(p *agentx.Pdu, id []uint32) bool {
	c := g.C
	var slots []*[]uint32
	for i := range p.Ranges {
		slots = append(slots, &p.Ranges[i].StartOid, &p.Ranges[i].EndOid)
	}
	for i := range p.Varbinds {
		slots = append(slots, &p.Varbinds[i].Oid)
	}
	n := c.Choose(len(slots) + 2)
	if n < len(slots) {
		*slots[n] = id
		return true
	}
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		q.Oid = id
		p.Params = q
	case agentx.RegisterParams:
		q.Subtree = id
		p.Params = q
	case agentx.UnregisterParams:
		q.Subtree = id
		p.Params = q
	case agentx.AddAgentCapsParams:
		q.Oid = id
		p.Params = q
	case agentx.RemoveAgentCapsParams:
		q.Oid = id
		p.Params = q
	default:
		for i := range p.Varbinds {
			if p.Varbinds[i].Tag == 6 {
				p.Varbinds[i].Value = id
				return true
			}
		}
		return false
	}
	return true
}

// Overlong puts an object identifier into p that has more sub-identifiers
// than RFC 2741 allows but can be written down: 129..255.
func (g *G) Overlong(p *agentx.Pdu) bool {
	n := []int{129, 130, 160, 200, 254, 255}[g.C.Choose(6)]
	if g.C.Choose(3) == 2 {
		n = 129 + g.C.Choose(127)
	}
	var id []uint32
	if g.C.Choose(2) == 1 {
		id = []uint32{1, 3, 6, 1, uint32(1 + g.C.Choose(255))}
	}
	return g.setOid(p, g.many(id, n))
}

// Edit is a change made in place to one sub-identifier or byte of a PDU.
type Edit struct {
	K, Pos int
	Val    uint32
}

func oidsOf(p *agentx.Pdu) (ids [][]uint32) {
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		ids = append(ids, q.Oid)
	case agentx.RegisterParams:
		ids = append(ids, q.Subtree)
	case agentx.UnregisterParams:
		ids = append(ids, q.Subtree)
	case agentx.AddAgentCapsParams:
		ids = append(ids, q.Oid)
	case agentx.RemoveAgentCapsParams:
		ids = append(ids, q.Oid)
	}
	for i := range p.Ranges {
		ids = append(ids, p.Ranges[i].StartOid, p.Ranges[i].EndOid)
	}
	for i := range p.Varbinds {
		ids = append(ids, p.Varbinds[i].Oid)
		if v, ok := p.Varbinds[i].Value.([]uint32); ok {
			ids = append(ids, v)
		}
	}
	return
}

// Tweak draws an edit that leaves the PDU one the wire can carry; K is -1 if
// there is nothing to change.
func (g *G) Tweak(p *agentx.Pdu) Edit {
	ids := oidsOf(p)
	if len(ids) == 0 {
		return Edit{K: -1}
	}
	k := g.C.Choose(len(ids))
	n := len(ids[k])
	if n == 0 || n > 128 {
		return Edit{K: -1}
	}
	e := Edit{K: k, Pos: n - 1}
	if g.C.Choose(3) > 0 {
		e.Pos = g.C.Choose(n)
		if e.Pos > 4 && g.C.Choose(2) == 1 {
			e.Pos = g.C.Choose(5)
		}
	}
	old := ids[k][e.Pos]
	e.Val = []uint32{old + 1, old ^ 1, []uint32{1, 3, 6, 1, 4}[min(e.Pos, 4)], 0, old + 256, g.Subid()}[g.C.Choose(6)]
	return e
}

// Apply makes the edit.
func (e Edit) Apply(p *agentx.Pdu) {
	if e.K >= 0 {
		oidsOf(p)[e.K][e.Pos] = e.Val
	}
}

// Giant is a PDU of up to 17 MB: strings beyond the usual limits, or more than
// 65536 items.
func (g *G) Giant() agentx.Pdu {
	c := g.C
	p := agentx.Pdu{Flags: agentx.Flags(16 * c.Choose(2)), PacketId: g.U32()}
	n := []int{100000, 1 << 17, 1 << 20, 5000000, 1 << 24, 1 << 16, max(70000, c.NumTo(1<<24, 70000))}[c.Choose(7)] + c.Choose(9) - 4
	st := rt.NewStream(c.Word())
	str := make([]byte, n)
	for i := 0; i < n; i += 61 {
		str[i] = byte(st.Next())
	}
	str[n-1] = 0x5A
	many := 65530 + c.Choose(12)
	switch c.Choose(7) {
	case 0:
		p.Tag, p.Params = 1, agentx.OpenParams{Oid: g.Oid(), Description: string(str)}
	case 1:
		p.Tag, p.Params = 12, agentx.NoParams{}
		p.Flags |= 8
		p.Context = string(str)
		p.Varbinds = []asn.Varbind{g.Varbind()}
	case 2:
		p.Tag, p.Params = 8, agentx.NoParams{}
		p.Varbinds = []asn.Varbind{g.Varbind(), {Oid: g.Oid(), Tag: 68, Value: str}, g.Varbind()}
	case 3:
		p.Tag, p.Params = 18, agentx.ResponseParams{SysUpTime: 1}
		p.Varbinds = []asn.Varbind{g.Varbind(), {Oid: g.Oid(), Tag: 4, Value: string(str)}, g.Varbind()}
	case 4:
		p.Tag, p.Params = 16, agentx.AddAgentCapsParams{Oid: g.Oid(), Description: string(str)}
	case 5:
		p.Tag, p.Params = 5, agentx.NoParams{}
		for i := 0; i < many; i++ {
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: []uint32{1, 3, 6, 1, 2, uint32(i)}})
		}
	case 6:
		p.Tag, p.Params = 18, agentx.ResponseParams{SysUpTime: 1}
		for i := 0; i < many; i++ {
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: []uint32{uint32(i)}, Tag: 5})
		}
	}
	return p
}

// Unique makes p one that was not there before: n becomes part of every
// identifier and string.
func Unique(p *agentx.Pdu, n uint32) {
	id := func(a []uint32) []uint32 {
		if len(a) == 0 || len(a) > 120 {
			return a
		}
		return append(append([]uint32{}, a...), n)
	}
	str := fmt.Sprintf(" %d", n)
	p.PacketId, p.TransactionId = n, n+1
	if p.Flags&8 != 0 {
		p.Context += str
	}
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		q.Oid, q.Description = id(q.Oid), q.Description+str
		p.Params = q
	case agentx.RegisterParams:
		q.Subtree = id(q.Subtree)
		p.Params = q
	case agentx.UnregisterParams:
		q.Subtree = id(q.Subtree)
		p.Params = q
	case agentx.AddAgentCapsParams:
		q.Oid, q.Description = id(q.Oid), q.Description+str
		p.Params = q
	case agentx.RemoveAgentCapsParams:
		q.Oid = id(q.Oid)
		p.Params = q
	}
	for i := range p.Ranges {
		p.Ranges[i].StartOid, p.Ranges[i].EndOid = id(p.Ranges[i].StartOid), id(p.Ranges[i].EndOid)
	}
	for i := range p.Varbinds {
		v := &p.Varbinds[i]
		v.Oid = id(v.Oid)
		switch x := v.Value.(type) {
		case []uint32:
			v.Value = id(x)
		case string:
			v.Value = x + str
		case []byte:
			v.Value = append(append([]byte{}, x...), str...)
		}
	}
}
