package ref

import (
	"fmt"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
)

func oidEq(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func oidDup(a []uint32) []uint32 {
	if a == nil {
		return nil
	}
	b := make([]uint32, len(a)+2)
	copy(b, a)
	b[len(a)], b[len(a)+1] = slack, slack
	return b[:len(a)]
}

const slack = 0xFEEDFACE

// SlackOK tells whether the memory behind the slices of a PDU that Dup
// returned is as Dup left it.
func SlackOK(p agentx.Pdu) bool {
	ok := true
	o := func(id []uint32) {
		if n := len(id); id != nil && (cap(id) < n+2 || id[:n+2][n] != slack || id[:n+2][n+1] != slack) {
			ok = false
		}
	}
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		o(q.Oid)
	case agentx.RegisterParams:
		o(q.Subtree)
	case agentx.UnregisterParams:
		o(q.Subtree)
	case agentx.AddAgentCapsParams:
		o(q.Oid)
	case agentx.RemoveAgentCapsParams:
		o(q.Oid)
	}
	for _, r := range p.Ranges {
		o(r.StartOid)
		o(r.EndOid)
	}
	if n := len(p.Ranges); p.Ranges != nil {
		if x := p.Ranges[:n+1][n]; x.StartIncluded != 0x5E || x.StartOid != nil || x.EndOid != nil {
			ok = false
		}
	}
	for _, vb := range p.Varbinds {
		o(vb.Oid)
		switch v := vb.Value.(type) {
		case []uint32:
			o(v)
		case []byte:
			if n := len(v); v != nil && (cap(v) < n+4 || string(v[:n+4][n:]) != "\x5A\x5B\x5C\x5D") {
				ok = false
			}
		}
	}
	if n := len(p.Varbinds); p.Varbinds != nil {
		if x := p.Varbinds[:n+1][n]; x.Tag != 0xEE || x.Oid != nil || x.Value != nil {
			ok = false
		}
	}
	return ok
}

// Dup returns a deep copy whose slices have marked spare capacity.
func Dup(p agentx.Pdu) agentx.Pdu {
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		q.Oid = oidDup(q.Oid)
		p.Params = q
	case agentx.RegisterParams:
		q.Subtree = oidDup(q.Subtree)
		p.Params = q
	case agentx.UnregisterParams:
		q.Subtree = oidDup(q.Subtree)
		p.Params = q
	case agentx.AddAgentCapsParams:
		q.Oid = oidDup(q.Oid)
		p.Params = q
	case agentx.RemoveAgentCapsParams:
		q.Oid = oidDup(q.Oid)
		p.Params = q
	}
	if p.Ranges != nil {
		rs := make([]agentx.SearchRange, len(p.Ranges)+1)
		rs[len(p.Ranges)].StartIncluded = 0x5E
		rs = rs[:len(p.Ranges)]
		for i, r := range p.Ranges {
			rs[i] = agentx.SearchRange{StartOid: oidDup(r.StartOid), EndOid: oidDup(r.EndOid), StartIncluded: r.StartIncluded}
		}
		p.Ranges = rs
	}
	if p.Varbinds != nil {
		vs := make([]asn.Varbind, len(p.Varbinds)+1)
		vs[len(p.Varbinds)].Tag = 0xEE
		vs = vs[:len(p.Varbinds)]
		for i, vb := range p.Varbinds {
			vs[i] = asn.Varbind{Oid: oidDup(vb.Oid), Tag: vb.Tag, Value: vb.Value}
			switch v := vb.Value.(type) {
			case []uint32:
				vs[i].Value = oidDup(v)
			case []byte:
				if v != nil {
					b := append(append(make([]byte, 0, len(v)+4), v...), 0x5A, 0x5B, 0x5C, 0x5D)
					vs[i].Value = b[:len(v)]
				}
			}
		}
		p.Varbinds = vs
	}
	return p
}

// Sent returns what a receiver gets of a PDU that was sent: fields the PDU
// type does not carry are dropped, and the include field of a null starting
// object identifier (which the format has no place for) is zero.
func Sent(p agentx.Pdu) agentx.Pdu {
	p = Dup(p)
	if byte(p.Flags)&fCtx == 0 {
		p.Context = ""
	}
	switch q := p.Params.(type) {
	case agentx.RegisterParams:
		if q.RangeSubid == 0 {
			q.UpperBound = 0
		}
		p.Params = q
	case agentx.UnregisterParams:
		if q.RangeSubid == 0 {
			q.UpperBound = 0
		}
		p.Params = q
	}
	if !kinds[byte(p.Tag)].ranges {
		p.Ranges = nil
	}
	if !kinds[byte(p.Tag)].varbinds {
		p.Varbinds = nil
	}
	for i := range p.Ranges {
		if len(p.Ranges[i].StartOid) == 0 {
			p.Ranges[i].StartIncluded = 0
		}
	}
	for i := range p.Varbinds {
		switch p.Varbinds[i].Tag {
		case 5, 128, 129, 130:
			p.Varbinds[i].Value = nil
		}
	}
	return p
}

func valueEq(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case int32:
		y, ok := b.(int32)
		return ok && x == y
	case uint32:
		y, ok := b.(uint32)
		return ok && x == y
	case uint64:
		y, ok := b.(uint64)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case [4]byte:
		y, ok := b.([4]byte)
		return ok && x == y
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	case []uint32:
		y, ok := b.([]uint32)
		return ok && oidEq(x, y)
	}
	return false
}

func paramsDiff(a, b agentx.PayloadParams) string {
	same := false
	switch x := a.(type) {
	case nil:
		same = b == nil
	case agentx.NoParams:
		_, same = b.(agentx.NoParams)
	case agentx.OpenParams:
		y, ok := b.(agentx.OpenParams)
		same = ok && x.Timeout == y.Timeout && oidEq(x.Oid, y.Oid) && x.Description == y.Description
	case agentx.CloseParams:
		y, ok := b.(agentx.CloseParams)
		same = ok && x == y
	case agentx.RegisterParams:
		y, ok := b.(agentx.RegisterParams)
		same = ok && x.Timeout == y.Timeout && x.Priority == y.Priority && x.RangeSubid == y.RangeSubid &&
			oidEq(x.Subtree, y.Subtree) && x.UpperBound == y.UpperBound
	case agentx.UnregisterParams:
		y, ok := b.(agentx.UnregisterParams)
		same = ok && x.Priority == y.Priority && x.RangeSubid == y.RangeSubid &&
			oidEq(x.Subtree, y.Subtree) && x.UpperBound == y.UpperBound
	case agentx.GetBulkParams:
		y, ok := b.(agentx.GetBulkParams)
		same = ok && x == y
	case agentx.AddAgentCapsParams:
		y, ok := b.(agentx.AddAgentCapsParams)
		same = ok && oidEq(x.Oid, y.Oid) && x.Description == y.Description
	case agentx.RemoveAgentCapsParams:
		y, ok := b.(agentx.RemoveAgentCapsParams)
		same = ok && oidEq(x.Oid, y.Oid)
	case agentx.ResponseParams:
		y, ok := b.(agentx.ResponseParams)
		same = ok && x == y
	}
	if same {
		return ""
	}
	return fmt.Sprintf("Params: %s != %s", short(a), short(b))
}

func short(v interface{}) string { // avoids the library's own String methods where it matters
	s := fmt.Sprintf("%T%+v", v, v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// HeaderDiff compares the header fields; it returns "" if they are equal.
func HeaderDiff(a, b agentx.Pdu) string {
	switch {
	case a.Tag != b.Tag:
		return fmt.Sprintf("Tag: %d != %d", a.Tag, b.Tag)
	case a.Flags != b.Flags:
		return fmt.Sprintf("Flags: %#x != %#x", byte(a.Flags), byte(b.Flags))
	case a.SessionId != b.SessionId:
		return fmt.Sprintf("SessionId: %#x != %#x", a.SessionId, b.SessionId)
	case a.TransactionId != b.TransactionId:
		return fmt.Sprintf("TransactionId: %#x != %#x", a.TransactionId, b.TransactionId)
	case a.PacketId != b.PacketId:
		return fmt.Sprintf("PacketId: %#x != %#x", a.PacketId, b.PacketId)
	}
	return ""
}

// Diff compares two PDUs (PayloadSize excepted); nil and empty lists are
// equal. It returns "" if they are equal.
func Diff(a, b agentx.Pdu) string {
	if s := HeaderDiff(a, b); s != "" {
		return s
	}
	if a.Context != b.Context {
		return fmt.Sprintf("Context: %s != %s", short(a.Context), short(b.Context))
	}
	if s := paramsDiff(a.Params, b.Params); s != "" {
		return s
	}
	if len(a.Ranges) != len(b.Ranges) {
		return fmt.Sprintf("number of ranges: %d != %d", len(a.Ranges), len(b.Ranges))
	}
	for i := range a.Ranges {
		x, y := a.Ranges[i], b.Ranges[i]
		if !oidEq(x.StartOid, y.StartOid) || !oidEq(x.EndOid, y.EndOid) || x.StartIncluded != y.StartIncluded {
			return fmt.Sprintf("Ranges[%d]: %s != %s", i, short(x), short(y))
		}
	}
	if len(a.Varbinds) != len(b.Varbinds) {
		return fmt.Sprintf("number of varbinds: %d != %d", len(a.Varbinds), len(b.Varbinds))
	}
	for i := range a.Varbinds {
		x, y := a.Varbinds[i], b.Varbinds[i]
		if !oidEq(x.Oid, y.Oid) || x.Tag != y.Tag || !valueEq(x.Value, y.Value) {
			return fmt.Sprintf("Varbinds[%d]: %s != %s", i, shortVb(x), shortVb(y))
		}
	}
	return ""
}

func shortVb(vb asn.Varbind) string {
	type raw struct {
		Oid   []uint32
		Tag   byte
		Value interface{}
	}
	return short(raw{vb.Oid, byte(vb.Tag), vb.Value})
}
