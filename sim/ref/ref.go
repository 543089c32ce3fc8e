// Package ref is an independent implementation of the AgentX wire format of
// RFC 2741 (section 5 and 6), written from the RFC and from
// agentx/docs/encoding.txt. It shares only the exported data types with the
// library (agentx.Pdu and the types it contains), none of its code. It is the
// oracle for what bytes mean, and it plays the foreign peer in interoperation
// runs.
package ref

import (
	"encoding/binary"
	"fmt"
	"math"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"
)

// Flag bits (RFC 2741, 6.1).
const (
	fInst = 0x01
	fNew  = 0x02
	fAny  = 0x04
	fCtx  = 0x08
	fNet  = 0x10
)

// HeaderSize is the size of the AgentX header.
const HeaderSize = 20

type kind struct {
	flags    byte
	ranges   bool
	varbinds bool
	name     string
}

// kinds is the table of PDU types (RFC 2741, 6.2). INSTANCE_REGISTRATION in
// Unregister, and every flag in Response (flags are echoed), are what the
// library's own test suite exchanges.
var kinds = map[byte]kind{
	1:  {fNet, false, false, "Open"},
	2:  {fNet, false, false, "Close"},
	3:  {fInst | fCtx | fNet, false, false, "Register"},
	4:  {fInst | fCtx | fNet, false, false, "Unregister"},
	5:  {fCtx | fNet, true, false, "Get"},
	6:  {fCtx | fNet, true, false, "GetNext"},
	7:  {fCtx | fNet, true, false, "GetBulk"},
	8:  {fCtx | fNet, false, true, "TestSet"},
	9:  {fNet, false, false, "CommitSet"},
	10: {fNet, false, false, "UndoSet"},
	11: {fNet, false, false, "CleanupSet"},
	12: {fCtx | fNet, false, true, "Notify"},
	13: {fCtx | fNet, false, false, "Ping"},
	14: {fNew | fAny | fCtx | fNet, false, true, "IndexAllocate"},
	15: {fNew | fAny | fCtx | fNet, false, true, "IndexDeallocate"},
	16: {fCtx | fNet, false, false, "AddAgentCaps"},
	17: {fCtx | fNet, false, false, "RemoveAgentCaps"},
	18: {fInst | fNew | fAny | fCtx | fNet, false, true, "Response"},
}

// Known tells whether tag is a PDU type of RFC 2741.
func Known(tag byte) bool { _, ok := kinds[tag]; return ok }

// Name of a PDU type.
func Name(tag byte) string { return kinds[tag].name }

// AllowedFlags of a PDU type.
func AllowedFlags(tag byte) byte { return kinds[tag].flags }

// HasRanges tells whether the PDU type carries a SearchRangeList.
func HasRanges(tag byte) bool { return kinds[tag].ranges }

// HasVarbinds tells whether the PDU type carries a VarBindList.
func HasVarbinds(tag byte) bool { return kinds[tag].varbinds }

// Role says what a byte of a frame is for; faults are aimed by role.
type Role byte

// The roles.
const (
	RVersion Role = iota
	RType
	RFlags
	RReserved
	RId
	RPayloadLen
	RStrLen
	RStrData
	RPad
	ROidN
	ROidPrefix
	ROidInclude
	RSubid
	RVbType
	RVbValue
	RParam
	NRoles
)

var roleNames = [...]string{"version", "type", "flags", "reserved", "id", "payload_length", "string_length",
	"string_data", "padding", "n_subid", "prefix", "include", "subid", "varbind_type", "varbind_value", "param"}

func (r Role) String() string { return roleNames[r] }

// Opt selects among the encodings RFC 2741 allows.
type Opt struct {
	NoPrefix bool // never use the internet prefix
	// not allowed, but otherwise consistent:
	Overlong bool // object identifiers of up to 255 sub-identifiers
	IPLen    int  // addresses of this many octets, plus one
}

type enc struct {
	b    []byte
	r    []Role
	ord  binary.AppendByteOrder
	opt  Opt
	fail bool
}

func (e *enc) raw(role Role, bs ...byte) {
	e.b = append(e.b, bs...)
	for range bs {
		e.r = append(e.r, role)
	}
}

func (e *enc) u16(role Role, v uint16) { e.raw(role, e.ord.AppendUint16(nil, v)...) }
func (e *enc) u32(role Role, v uint32) { e.raw(role, e.ord.AppendUint32(nil, v)...) }
func (e *enc) u64(role Role, v uint64) { e.raw(role, e.ord.AppendUint64(nil, v)...) }

func (e *enc) octets(s []byte) {
	e.u32(RStrLen, uint32(len(s)))
	e.raw(RStrData, s...)
	for n := len(s); n%4 != 0; n++ {
		e.raw(RPad, 0)
	}
}

func (e *enc) oid(id []uint32, include byte) {
	if len(id) == 0 {
		e.raw(ROidN, 0)
		e.raw(ROidPrefix, 0)
		e.raw(ROidInclude, 0)
		e.raw(RReserved, 0)
		return
	}
	prefix := byte(0)
	if !e.opt.NoPrefix && len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] >= 1 && id[4] <= 255 {
		prefix = byte(id[4])
		id = id[5:]
	}
	if len(id) > 128 && !e.opt.Overlong || len(id) > 255 {
		e.fail = true
		return
	}
	e.raw(ROidN, byte(len(id)))
	e.raw(ROidPrefix, prefix)
	e.raw(ROidInclude, include)
	e.raw(RReserved, 0)
	for _, s := range id {
		e.u32(RSubid, s)
	}
}

func (e *enc) value(vb asn.Varbind) {
	switch int(vb.Tag) {
	case 2:
		v, ok := vb.Value.(int32)
		e.fail = e.fail || !ok
		e.u32(RVbValue, uint32(v))
	case 4:
		v, ok := vb.Value.(string)
		e.fail = e.fail || !ok
		e.octets([]byte(v))
	case 6:
		v, ok := vb.Value.([]uint32)
		e.fail = e.fail || !ok
		e.oid(v, 0)
	case 64:
		v, ok := vb.Value.([4]byte)
		e.fail = e.fail || !ok
		if e.opt.IPLen > 0 {
			e.octets(append(v[:], 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)[:e.opt.IPLen-1])
			break
		}
		e.octets(v[:])
	case 65, 66, 67:
		v, ok := vb.Value.(uint32)
		e.fail = e.fail || !ok
		e.u32(RVbValue, v)
	case 68:
		v, ok := vb.Value.([]byte)
		e.fail = e.fail || !ok
		e.octets(v)
	case 70:
		v, ok := vb.Value.(uint64)
		e.fail = e.fail || !ok
		e.u64(RVbValue, v)
	case 5, 128, 129, 130:
	default:
		e.fail = true
	}
}

// Encode returns the frame for p, the role of each of its bytes, and false if
// p cannot be expressed in AgentX.
func Encode(p agentx.Pdu, opt Opt) (frame []byte, roles []Role, ok bool) {
	k, known := kinds[byte(p.Tag)]
	if !known || byte(p.Flags)&^k.flags != 0 {
		return nil, nil, false
	}
	e := &enc{opt: opt, ord: binary.LittleEndian}
	if byte(p.Flags)&fNet != 0 {
		e.ord = binary.BigEndian
	}
	e.raw(RVersion, 1)
	e.raw(RType, byte(p.Tag))
	e.raw(RFlags, byte(p.Flags))
	e.raw(RReserved, 0)
	e.u32(RId, p.SessionId)
	e.u32(RId, p.TransactionId)
	e.u32(RId, p.PacketId)
	e.u32(RPayloadLen, 0)

	if byte(p.Flags)&fCtx != 0 {
		e.octets([]byte(p.Context))
	}
	switch byte(p.Tag) {
	case 1:
		q, ok := p.Params.(agentx.OpenParams)
		e.fail = e.fail || !ok
		e.raw(RParam, q.Timeout)
		e.raw(RReserved, 0, 0, 0)
		e.oid(q.Oid, 0)
		e.octets([]byte(q.Description))
	case 2:
		q, ok := p.Params.(agentx.CloseParams)
		e.fail = e.fail || !ok
		e.raw(RParam, byte(q.Reason))
		e.raw(RReserved, 0, 0, 0)
	case 3:
		q, ok := p.Params.(agentx.RegisterParams)
		e.fail = e.fail || !ok
		e.raw(RParam, q.Timeout, q.Priority, q.RangeSubid)
		e.raw(RReserved, 0)
		e.oid(q.Subtree, 0)
		if q.RangeSubid != 0 {
			e.u32(RSubid, q.UpperBound)
		}
	case 4:
		q, ok := p.Params.(agentx.UnregisterParams)
		e.fail = e.fail || !ok
		e.raw(RReserved, 0)
		e.raw(RParam, q.Priority, q.RangeSubid)
		e.raw(RReserved, 0)
		e.oid(q.Subtree, 0)
		if q.RangeSubid != 0 {
			e.u32(RSubid, q.UpperBound)
		}
	case 7:
		q, ok := p.Params.(agentx.GetBulkParams)
		e.fail = e.fail || !ok || q.NonRepeaters < 0 || q.MaxRepeatitions < 0
		e.u16(RParam, uint16(q.NonRepeaters))
		e.u16(RParam, uint16(q.MaxRepeatitions))
	case 16:
		q, ok := p.Params.(agentx.AddAgentCapsParams)
		e.fail = e.fail || !ok
		e.oid(q.Oid, 0)
		e.octets([]byte(q.Description))
	case 17:
		q, ok := p.Params.(agentx.RemoveAgentCapsParams)
		e.fail = e.fail || !ok
		e.oid(q.Oid, 0)
	case 18:
		q, ok := p.Params.(agentx.ResponseParams)
		e.fail = e.fail || !ok
		e.u32(RParam, q.SysUpTime)
		e.u16(RParam, uint16(q.Error))
		e.u16(RParam, uint16(q.Index))
	default:
		_, ok := p.Params.(agentx.NoParams)
		e.fail = e.fail || !ok
	}
	if k.ranges {
		for _, r := range p.Ranges {
			e.oid(r.StartOid, r.StartIncluded)
			e.oid(r.EndOid, 0)
		}
	}
	if k.varbinds {
		for _, vb := range p.Varbinds {
			e.u16(RVbType, uint16(vb.Tag))
			e.raw(RReserved, 0, 0)
			e.oid(vb.Oid, 0)
			e.value(vb)
		}
	}
	n := len(e.b) - HeaderSize
	if e.fail || n > math.MaxInt32 {
		return nil, nil, false
	}
	copy(e.b[16:20], e.ord.AppendUint32(nil, uint32(n)))
	return e.b, e.r, true
}

// Verdict on received bytes.
type Verdict int

// The verdicts.
const (
	Accept Verdict = iota // conforms to RFC 2741: must be accepted
	Grey                  // oddity a lenient receiver may let pass: either answer is right
	Reject                // malformed: must be refused
)

func (v Verdict) String() string { return [...]string{"conforming", "tolerable", "malformed"}[v] }

type malformed struct{ why string }

type dec struct {
	b    []byte
	ord  binary.ByteOrder
	grey string
}

func (d *dec) bad(format string, args ...interface{}) {
	panic(malformed{fmt.Sprintf(format, args...)})
}

func (d *dec) take(n int) []byte {
	if n < 0 || n > len(d.b) {
		d.bad("%d bytes wanted, %d left", n, len(d.b))
	}
	x := d.b[:n:n]
	d.b = d.b[n:]
	return x
}

func (d *dec) zero(n int, what string) {
	for _, x := range d.take(n) {
		if x != 0 {
			d.bad("non-zero %s", what)
		}
	}
}

func (d *dec) u16() uint16 { return d.ord.Uint16(d.take(2)) }
func (d *dec) u32() uint32 { return d.ord.Uint32(d.take(4)) }
func (d *dec) u64() uint64 { return d.ord.Uint64(d.take(8)) }

func (d *dec) octets() []byte {
	n := d.u32()
	if n > math.MaxInt32 || int(n) > len(d.b) {
		d.bad("octet string of %d bytes, %d left", n, len(d.b))
	}
	s := append([]byte{}, d.take(int(n))...)
	d.zero((4-int(n)%4)%4, "padding")
	return s
}

func (d *dec) oid(start bool) (id []uint32, include byte) {
	h := d.take(4)
	if h[3] != 0 {
		d.bad("non-zero reserved byte of object identifier")
	}
	if h[1] != 0 {
		id = []uint32{1, 3, 6, 1, uint32(h[1])}
	}
	if h[0] > 128 {
		d.bad("%d sub-identifiers (RFC 2741 allows 128)", h[0])
	}
	for i := 0; i < int(h[0]); i++ {
		id = append(id, d.u32())
	}
	if len(id) > 128 {
		d.grey = "object identifier longer than 128"
	}
	include = h[2]
	if include > 1 || include != 0 && (!start || len(id) == 0) {
		d.grey = "include field"
	}
	return id, include
}

// DecodeHeader decodes an AgentX header.
func DecodeHeader(h []byte) (p agentx.Pdu, v Verdict, why string) {
	if len(h) != HeaderSize {
		return p, Reject, "header size"
	}
	k, known := kinds[h[1]]
	switch {
	case h[0] != 1:
		return p, Reject, "version"
	case !known:
		return p, Reject, "type"
	case h[2]&^k.flags != 0:
		return p, Reject, "flags"
	case h[3] != 0:
		return p, Reject, "reserved byte"
	}
	var ord binary.ByteOrder = binary.LittleEndian
	if h[2]&fNet != 0 {
		ord = binary.BigEndian
	}
	p.Tag, p.Flags = agentx.PduTag(h[1]), agentx.Flags(h[2])
	p.SessionId, p.TransactionId, p.PacketId = ord.Uint32(h[4:]), ord.Uint32(h[8:]), ord.Uint32(h[12:])
	p.PayloadSize = int32(ord.Uint32(h[16:]))
	if p.PayloadSize < 0 || p.PayloadSize%4 != 0 {
		return p, Reject, "payload length"
	}
	return p, Accept, ""
}

// DecodePayload decodes the payload that belongs to the header in p.
func DecodePayload(p *agentx.Pdu, data []byte) (v Verdict, why string) {
	defer func() {
		if r := recover(); r != nil {
			m, ok := r.(malformed)
			if !ok {
				panic(r)
			}
			v, why = Reject, m.why
		}
	}()
	k, known := kinds[byte(p.Tag)]
	if !known {
		return Reject, "type"
	}
	if len(data) != int(p.PayloadSize) {
		return Reject, "payload length"
	}
	d := &dec{b: data, ord: binary.LittleEndian}
	if byte(p.Flags)&fNet != 0 {
		d.ord = binary.BigEndian
	}
	if byte(p.Flags)&fCtx != 0 {
		p.Context = string(d.octets())
	}
	switch byte(p.Tag) {
	case 1:
		q := agentx.OpenParams{Timeout: d.take(1)[0]}
		d.zero(3, "reserved bytes of Open")
		q.Oid, _ = d.oid(false)
		q.Description = string(d.octets())
		p.Params = q
	case 2:
		q := agentx.CloseParams{Reason: agentx.CloseReason(d.take(1)[0])}
		if q.Reason < 1 || q.Reason > 6 {
			d.grey = "close reason"
		}
		d.zero(3, "reserved bytes of Close")
		p.Params = q
	case 3:
		h := d.take(3)
		q := agentx.RegisterParams{Timeout: h[0], Priority: h[1], RangeSubid: h[2]}
		d.zero(1, "reserved byte of Register")
		q.Subtree, _ = d.oid(false)
		if q.RangeSubid != 0 {
			q.UpperBound = d.u32()
		}
		p.Params = q
	case 4:
		d.zero(1, "reserved byte of Unregister")
		h := d.take(2)
		q := agentx.UnregisterParams{Priority: h[0], RangeSubid: h[1]}
		d.zero(1, "reserved byte of Unregister")
		q.Subtree, _ = d.oid(false)
		if q.RangeSubid != 0 {
			q.UpperBound = d.u32()
		}
		p.Params = q
	case 7:
		q := agentx.GetBulkParams{NonRepeaters: int16(d.u16())}
		q.MaxRepeatitions = int16(d.u16())
		if q.NonRepeaters < 0 || q.MaxRepeatitions < 0 {
			d.bad("negative GetBulk parameter")
		}
		p.Params = q
	case 16:
		q := agentx.AddAgentCapsParams{}
		q.Oid, _ = d.oid(false)
		q.Description = string(d.octets())
		p.Params = q
	case 17:
		q := agentx.RemoveAgentCapsParams{}
		q.Oid, _ = d.oid(false)
		p.Params = q
	case 18:
		q := agentx.ResponseParams{SysUpTime: d.u32()}
		q.Error = pduerror.Error(d.u16())
		q.Index = int16(d.u16())
		p.Params = q
	default:
		p.Params = agentx.NoParams{}
	}
	if k.ranges {
		for len(d.b) > 0 {
			var r agentx.SearchRange
			r.StartOid, r.StartIncluded = d.oid(true)
			r.EndOid, _ = d.oid(false)
			p.Ranges = append(p.Ranges, r)
		}
	}
	if k.varbinds {
		for len(d.b) > 0 {
			var vb asn.Varbind
			t := d.u16()
			d.zero(2, "reserved bytes of varbind")
			if t > 255 {
				d.bad("varbind type %d", t)
			}
			vb.Tag = asn.Tag(t)
			vb.Oid, _ = d.oid(false)
			switch t {
			case 2:
				vb.Value = int32(d.u32())
			case 4:
				vb.Value = string(d.octets())
			case 6:
				id, _ := d.oid(false)
				vb.Value = id
			case 64:
				s := d.octets()
				if len(s) != 4 {
					d.bad("IpAddress of %d bytes", len(s))
				}
				vb.Value = [4]byte{s[0], s[1], s[2], s[3]}
			case 65, 66, 67:
				vb.Value = d.u32()
			case 68:
				vb.Value = d.octets()
			case 70:
				vb.Value = d.u64()
			case 5, 128, 129, 130:
			default:
				d.bad("varbind type %d", t)
			}
			p.Varbinds = append(p.Varbinds, vb)
		}
	}
	if len(d.b) != 0 {
		d.bad("%d bytes left over", len(d.b))
	}
	if d.grey != "" {
		return Grey, d.grey
	}
	return Accept, ""
}
