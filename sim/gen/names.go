package gen

import (
	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"
)

// The numbers of RFC 2741 and RFC 3416, and what the library calls them.
var (
	tagNames = map[byte]agentx.PduTag{
		1: agentx.TagOpen, 2: agentx.TagClose, 3: agentx.TagRegister, 4: agentx.TagUnregister, 5: agentx.TagGet,
		6: agentx.TagGetNext, 7: agentx.TagGetBulk, 8: agentx.TagTestSet, 9: agentx.TagCommitSet, 10: agentx.TagUndoSet,
		11: agentx.TagCleanupSet, 12: agentx.TagNotify, 13: agentx.TagPing, 14: agentx.TagIndexAllocate,
		15: agentx.TagIndexDeallocate, 16: agentx.TagAddAgentCaps, 17: agentx.TagRemoveAgentCaps, 18: agentx.TagResponse,
	}
	flagNames = map[byte]agentx.Flags{
		1: agentx.FlagInstanceRegistration, 2: agentx.FlagNewIndex, 4: agentx.FlagAnyIndex,
		8: agentx.FlagNonDefaultContext, 16: agentx.FlagNetworkByteOrder,
	}
	reasonNames = map[byte]agentx.CloseReason{
		1: agentx.CloseReasonOther, 2: agentx.CloseReasonParseError, 3: agentx.CloseReasonProtocolError,
		4: agentx.CloseReasonTimeouts, 5: agentx.CloseReasonShutdown, 6: agentx.CloseReasonByManager,
	}
	typeNames = map[byte]asn.Tag{
		2: asn.TagInteger32, 4: asn.TagOctetString, 5: asn.TagNull, 6: asn.TagObjectId, 64: asn.TagIpAddress,
		65: asn.TagCounter32, 66: asn.TagGauge32, 67: asn.TagTimeTicks, 68: asn.TagOpaque, 70: asn.TagCounter64,
		128: asn.TagNoSuchObject, 129: asn.TagNoSuchInstance, 130: asn.TagEndOfMibView,
	}
	errorNames = map[uint16]pduerror.Error{
		0: pduerror.NoError, 1: pduerror.TooBig, 2: pduerror.NoSuchName, 3: pduerror.BadValue, 4: pduerror.ReadOnly,
		5: pduerror.GenError, 6: pduerror.NoAccess, 7: pduerror.WrongType, 8: pduerror.WrongLength,
		9: pduerror.WrongEncoding, 10: pduerror.WrongValue, 11: pduerror.NoCreation, 12: pduerror.InconsistentValue,
		13: pduerror.ResourceUnavailable, 14: pduerror.CommitFailed, 15: pduerror.UndoFailed,
		16: pduerror.AuthorizationError, 17: pduerror.NotWritable, 18: pduerror.InconsistentName,
		256: pduerror.OpenFailed, 257: pduerror.NotOpened, 258: pduerror.IndexWrongType,
		259: pduerror.IndexAlreadyAllocated, 260: pduerror.IndexNonAvailable, 261: pduerror.IndexNotAllocated,
		262: pduerror.UnsupportedContext, 263: pduerror.DuplicateRegistration, 264: pduerror.UnknownRegistration,
		265: pduerror.UnknownAgentCaps, 266: pduerror.ParseError, 267: pduerror.RequestDenied,
		268: pduerror.ProcessingError,
	}
)

// Named is p, made of the numbers of the RFCs, as a user of the library
// writes it: with the library's names.
func Named(p agentx.Pdu) agentx.Pdu {
	if t, ok := tagNames[byte(p.Tag)]; ok {
		p.Tag = t
	}
	var f agentx.Flags
	for b := 0; b < 8; b++ {
		bit := byte(1) << b
		if byte(p.Flags)&bit == 0 {
			continue
		}
		if n, ok := flagNames[bit]; ok {
			f |= n
		} else {
			f |= agentx.Flags(bit)
		}
	}
	p.Flags = f
	switch q := p.Params.(type) {
	case agentx.CloseParams:
		if n, ok := reasonNames[byte(q.Reason)]; ok {
			q.Reason = n
		}
		p.Params = q
	case agentx.ResponseParams:
		if n, ok := errorNames[uint16(q.Error)]; ok {
			q.Error = n
		}
		p.Params = q
	}
	if len(p.Varbinds) > 0 {
		vbs := append(p.Varbinds[:0:0], p.Varbinds...)
		for i := range vbs {
			if n, ok := typeNames[byte(vbs[i].Tag)]; ok {
				vbs[i].Tag = n
			}
		}
		p.Varbinds = vbs
	}
	return p
}

// Large returns a valid PDU of some 5 to 40 kilobytes.
func (g *G) Large() agentx.Pdu {
	c := g.C
	n := 4*1024 + 4*c.Choose(8*1024)
	str := make([]byte, n-c.Choose(4))
	for i := range str {
		str[i] = byte('a' + i%26)
	}
	p := agentx.Pdu{Flags: agentx.Flags(16 * c.Choose(2)), PacketId: g.U32()}
	switch c.Choose(5) {
	case 0:
		p.Tag, p.Params = 1, agentx.OpenParams{Description: string(str)}
	case 1:
		p.Tag, p.Params = 12, agentx.NoParams{}
		p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3, 6, 1, 2, 1}, Tag: 4, Value: string(str)}, g.Varbind()}
	case 2:
		p.Tag, p.Params = 8, agentx.NoParams{}
		p.Varbinds = []asn.Varbind{g.Varbind(), {Oid: []uint32{1, 3, 6, 1, 2, 1}, Tag: 68, Value: str}}
	case 3:
		p.Tag, p.Params = 6, agentx.NoParams{}
		for i := 0; i < n/64; i++ {
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: []uint32{1, 3, 6, 1, 2, 1, uint32(i)}, EndOid: []uint32{1, 3, 6, 1, 2, 2}})
		}
	case 4:
		p.Tag, p.Params = 18, agentx.ResponseParams{SysUpTime: 1}
		for i := 0; i < n/64; i++ {
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: []uint32{1, 3, 6, 1, 2, 1, uint32(i)}, Tag: 2, Value: int32(i)})
		}
	}
	return p
}
