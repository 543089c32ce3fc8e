package props

import (
	"bytes"
	"fmt"

	"github.com/alexispb/mygosnmp/agentx"

	"verif.local/sim/gen"
	"verif.local/sim/ref"
	"verif.local/sim/rt"
	"verif.local/sim/wire"
)

// ---- calls into the library

func (r *Run) encode(p agentx.Pdu) (data []byte, ok bool) {
	r.Call("EncodePdu", func() { data, ok = agentx.EncodePdu(p) })
	return
}

func (r *Run) header(h []byte) (p agentx.Pdu, ok bool) {
	r.Call("DecodePduHeader", func() { p, ok = agentx.DecodePduHeader(h) })
	return
}

func (r *Run) payload(p *agentx.Pdu, data []byte) (ok bool) {
	r.Call("DecodePduPayload", func() { ok = agentx.DecodePduPayload(p, data) })
	return
}

func hexs(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%x... (%d bytes)", b[:160], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// scramble changes everything reachable from a PDU in place.
func scramble(p *agentx.Pdu) {
	inv := func(id []uint32) {
		for i := range id {
			id[i] ^= 0x5A5A5A5A
		}
	}
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		inv(q.Oid)
	case agentx.RegisterParams:
		inv(q.Subtree)
	case agentx.UnregisterParams:
		inv(q.Subtree)
	case agentx.AddAgentCapsParams:
		inv(q.Oid)
	case agentx.RemoveAgentCapsParams:
		inv(q.Oid)
	}
	for i := range p.Ranges {
		inv(p.Ranges[i].StartOid)
		inv(p.Ranges[i].EndOid)
	}
	for i := range p.Varbinds {
		inv(p.Varbinds[i].Oid)
		switch v := p.Varbinds[i].Value.(type) {
		case []uint32:
			inv(v)
		case []byte:
			for k := range v {
				v[k] ^= 0x5A
			}
		}
	}
	for i := range p.Ranges {
		p.Ranges[i].StartIncluded ^= 1
	}
	for i := range p.Varbinds {
		p.Varbinds[i].Tag ^= 1
	}
}

// ---- links

// link is one direction between two nodes: a sequence of connections.
type link struct {
	r     *Run
	conns []*wire.Conn
	done  bool
	sent  []frameRec
}

type frameRec struct {
	conn int
	pdu  agentx.Pdu // as the receiver must get it
	kind string     // damage
	raw  []byte     // what was put on the wire
}

type linkWait struct {
	l *link
	n int
}

func (w linkWait) Ready(int) bool { return len(w.l.conns) > w.n || w.l.done }

func (l *link) conn() *wire.Conn {
	if n := len(l.conns); n == 0 || l.conns[n-1].Dead() {
		if n > 0 {
			l.r.Fault("reconnect")
		}
		l.conns = append(l.conns, wire.NewConn(l.r.S, l.r.Fault))
	}
	return l.conns[len(l.conns)-1]
}

func (l *link) send(rec frameRec, frame []byte) {
	k := l.conn()
	rec.conn = len(l.conns) - 1
	l.sent = append(l.sent, rec)
	k.Write(frame)
}

func (l *link) finish() {
	l.done = true
	if n := len(l.conns); n > 0 {
		l.conns[n-1].Close()
	}
}

// accept waits for connection number i; nil when there will be none.
func (l *link) accept(i int) *wire.Conn {
	for len(l.conns) <= i {
		if l.done {
			return nil
		}
		rt.Block(linkWait{l, i}, 0)
	}
	return l.conns[i]
}

// endSenders closes a link when its last sender is done.
type endSenders struct {
	n int
	l *link
}

func (e *endSenders) one() {
	if e.n--; e.n == 0 {
		e.l.finish()
	}
}

// pause lets time pass between operations.
func (r *Run) pause() {
	switch r.C.Choose(4) {
	case 1:
		rt.Y(-1)
	case 2:
		r.S.Sleep(int64(1 + r.C.Choose(50)))
	case 3:
		r.S.Sleep(int64(1 + r.C.Choose(5000)))
	}
}

// ---- C01, C02: reliable streams

type party struct {
	// as turns a PDU made of the numbers of RFC 2741 into what the users of
	// this implementation write (nil: the same)
	as func(p agentx.Pdu) agentx.Pdu

	enc func(r *Run, p agentx.Pdu) ([]byte, bool)
	hdr func(r *Run, h []byte) (agentx.Pdu, bool)
	pay func(r *Run, p *agentx.Pdu, data []byte) bool
}

var libParty = party{
	enc: func(r *Run, p agentx.Pdu) ([]byte, bool) { return r.encode(p) },
	hdr: func(r *Run, h []byte) (agentx.Pdu, bool) { return r.header(h) },
	pay: func(r *Run, p *agentx.Pdu, d []byte) bool { return r.payload(p, d) },
}

func (y party) named(p agentx.Pdu) agentx.Pdu {
	if y.as != nil {
		return y.as(p)
	}
	return p
}

// named is libParty with users who write the library's names.
var namedParty = party{as: gen.Named, enc: libParty.enc, hdr: libParty.hdr, pay: libParty.pay}

func refParty(opt ref.Opt) party {
	return party{
		enc: func(r *Run, p agentx.Pdu) ([]byte, bool) {
			f, _, ok := ref.Encode(p, opt)
			if !ok && opt.NoPrefix { // too long without compression
				f, _, ok = ref.Encode(p, ref.Opt{})
			}
			return f, ok
		},
		hdr: func(r *Run, h []byte) (agentx.Pdu, bool) {
			p, v, why := ref.DecodeHeader(h)
			if v != ref.Accept {
				r.Fail("foreign peer refuses", "RFC 2741 peer refuses the header %x: %s", h, why)
			}
			return p, true
		},
		pay: func(r *Run, p *agentx.Pdu, d []byte) bool {
			if v, why := ref.DecodePayload(p, d); v != ref.Accept {
				r.Fail("foreign peer refuses", "RFC 2741 peer refuses a %s payload (%s): %s", ref.Name(byte(p.Tag)), why, hexs(d))
			}
			return true
		},
	}
}

type delivery struct {
	conn int
	pdu  agentx.Pdu
}

// reliable is the scenario of C01 and C02: several links, several senders per
// link, any segmentation, delay and interleaving, connection resets.
func reliable(r *Run, sides func() (from, to party, what string)) func() {
	type lk struct {
		*link
		what string
		got  []delivery
	}
	var links []*lk
	nlinks := 1 + r.C.Choose(3)
	resets := r.C.Choose(3) == 2
	total := 0
	giant := r.C.Choose(2000) == 1999
	for i := 0; i < nlinks; i++ {
		from, to, what := sides()
		l := &lk{link: &link{r: r}, what: what}
		links = append(links, l)
		ns := 1 + r.C.Choose(2)
		end := &endSenders{ns, l.link}
		for j := 0; j < ns; j++ {
			var pdus []agentx.Pdu
			for n := 1 + r.C.Choose(4); n > 0; n-- {
				pdus = append(pdus, r.G.Pdu())
			}
			if giant && i == 0 && j == 0 {
				r.Probe("giant PDU")
				pdus[0] = r.G.Giant()
			}
			total += len(pdus)
			r.S.Spawn(fmt.Sprintf("sender%d.%d", i, j), func() {
				defer end.one()
				for _, p := range pdus {
					r.pause()
					work := ref.Dup(p)
					frame, ok := from.enc(r, from.named(work))
					if !ok {
						r.Fail("valid PDU refused", "%s: encoder refuses %s", what, describe(p))
					}
					l.send(frameRec{pdu: to.named(ref.Sent(p))}, frame)
					if r.C.Choose(4) == 3 { // the PDU is used again with small changes in place
						for n := 1 + r.C.Choose(3); n > 0; n-- {
							r.G.Tweak(&work).Apply(&work)
							next := ref.Dup(work)
							if frame, ok = from.enc(r, from.named(work)); !ok {
								r.Fail("valid PDU refused", "%s: encoder refuses %s", what, describe(next))
							}
							l.send(frameRec{pdu: to.named(ref.Sent(next))}, frame)
						}
					}
					scramble(&work) // the PDU is the sender's to reuse
				}
			})
		}
		r.S.Spawn(fmt.Sprintf("receiver%d", i), func() {
			hbuf, pbuf := wire.NewBuf(r.C), wire.NewBuf(r.C)
			at := 0
			for ci := 0; ; ci++ {
				k := l.accept(ci)
				if k == nil {
					return
				}
				for {
					h := hbuf.Get(ref.HeaderSize)
					n, ok := k.ReadFull(h)
					if !ok {
						if n > 0 && !k.Dead() {
							r.Fail("stream out of step", "%s: %d bytes left over at the end of the stream", what, n)
						}
						break
					}
					pdu, ok := to.hdr(r, h)
					if !ok {
						r.Fail("valid frame refused", "%s: header %x refused", what, h)
					}
					if pdu.PayloadSize < 0 || pdu.PayloadSize > 1<<25 {
						r.Fail("stream out of step", "%s: header %x announces %d bytes", what, h, pdu.PayloadSize)
					}
					d := pbuf.Get(int(pdu.PayloadSize))
					if n, ok := k.ReadFull(d); !ok {
						if !k.Dead() {
							r.Fail("stream out of step", "%s: frame announces %d payload bytes, only %d came", what, len(d), n)
						}
						break
					}
					if !to.pay(r, &pdu, d) {
						r.Fail("valid frame refused", "%s: payload of %s refused: %x %s", what, ref.Name(byte(pdu.Tag)), h, hexs(d))
					}
					for at < len(l.sent) && l.sent[at].conn < ci {
						at++ // lost in a reset
					}
					if at >= len(l.sent) || l.sent[at].conn != ci {
						r.Fail("phantom PDU", "%s: received a PDU nobody sent: %s", what, describe(pdu))
					}
					if s := ref.Diff(l.sent[at].pdu, pdu); s != "" {
						r.Fail("PDU changed in transit", "%s: sent != received: %s\nsent %s\nframe %x %s", what, s, describe(l.sent[at].pdu), h, hexs(d))
					}
					r.Checked()
					at++
					r.S.Observe("%s received %d/%d from %d", what, pdu.Tag, pdu.PacketId, ci)
					l.got = append(l.got, delivery{ci, pdu})
					hbuf.Scribble(h, 0xC3)
					pbuf.Scribble(d, 0x3C)
				}
			}
		})
	}
	if resets {
		r.S.Spawn("chaos", func() {
			for n := 1 + r.C.Choose(3); n > 0; n-- {
				r.S.Sleep(int64(1 + r.C.Choose(4000)))
				l := links[r.C.Choose(len(links))]
				if m := len(l.conns); m > 0 && !l.done {
					l.conns[m-1].Reset()
				}
			}
		})
	}
	r.trivial = total < 2
	return func() {
		for _, l := range links {
			// per connection: everything, in order, exactly once; on a
			// connection that was reset: a prefix
			i := 0
			for ci := range l.conns {
				var sent []agentx.Pdu
				for _, f := range l.sent {
					if f.conn == ci {
						sent = append(sent, f.pdu)
					}
				}
				n := 0
				for ; i < len(l.got) && l.got[i].conn == ci; i++ {
					if n >= len(sent) {
						r.Fail("phantom PDU", "%s: more PDUs received than sent", l.what)
					}
					if s := ref.Diff(sent[n], l.got[i].pdu); s != "" {
						r.Fail("PDU changed after delivery", "%s: sent != kept: %s", l.what, s)
					}
					r.Checked()
					n++
				}
				if n < len(sent) && !l.conns[ci].Dead() {
					r.Fail("PDU lost", "%s: %d of %d PDUs received", l.what, n, len(sent))
				}
			}
		}
	}
}

func describe(p agentx.Pdu) string {
	s := fmt.Sprintf("{%s flags=%#x sid=%#x tid=%#x pid=%#x ctx=%q params=%+v ranges=%+v varbinds=[", ref.Name(byte(p.Tag)),
		byte(p.Flags), p.SessionId, p.TransactionId, p.PacketId, p.Context, p.Params, rawRanges(p.Ranges))
	for _, vb := range p.Varbinds {
		s += fmt.Sprintf("{%v %d %T%v}", vb.Oid, byte(vb.Tag), vb.Value, vb.Value)
	}
	s += "]}"
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

func rawRanges(rs []agentx.SearchRange) (out []string) {
	for _, x := range rs {
		out = append(out, fmt.Sprintf("%v-%v/%d", x.StartOid, x.EndOid, x.StartIncluded))
	}
	return
}

func setupC01(r *Run) func() {
	return reliable(r, func() (party, party, string) { return libParty, libParty, "library to library" })
}

func setupC02(r *Run) func() {
	return reliable(r, func() (party, party, string) {
		switch r.C.Choose(3) {
		case 0:
			return namedParty, refParty(ref.Opt{}), "library to foreign peer"
		case 1:
			return refParty(ref.Opt{}), namedParty, "foreign peer to library"
		default:
			return refParty(ref.Opt{NoPrefix: true}), namedParty, "foreign peer (no prefix compression) to library"
		}
	})
}

// ---- C03..C06: faulty links

// faulty spawns senders that put frames on a link, some of them damaged, lost,
// doubled or swapped.
type faultOpt struct {
	keepHeader bool // only payloads are damaged, framing stays right
	rate       int  // one frame out of rate is damaged
	reorder    bool
	small      bool
}

func makeFrames(r *Run, n int, o faultOpt) []frameRec {
	var clean []frameRec
	var roles [][]ref.Role
	r.G.Small = o.small
	for i := 0; i < n; i++ {
		p := r.G.Pdu()
		f, ro, ok := ref.Encode(p, ref.Opt{NoPrefix: r.C.Choose(4) == 3})
		if !ok {
			f, ro, ok = ref.Encode(p, ref.Opt{})
		}
		if !ok {
			panic("generator made a PDU the reference cannot encode: " + describe(p))
		}
		if r.C.Chance(1, 24) { // consistent, but not allowed
			q, opt, kind := ref.Dup(p), ref.Opt{}, ""
			if r.C.Choose(2) == 0 {
				r.G.Overlong(&q)
				opt, kind = ref.Opt{Overlong: true}, "overlong object identifier"
			} else {
				if len(q.Varbinds) > 0 {
					i := r.C.Choose(len(q.Varbinds))
					q.Varbinds[i].Tag, q.Varbinds[i].Value = 64, [4]byte{10, 0, 0, 0}
				}
				opt, kind = ref.Opt{IPLen: 1 + []int{0, 3, 8, 1, 2, 5, 16}[r.C.Choose(7)]}, "address of a wrong length"
			}
			if g, ro2, ok := ref.Encode(q, opt); ok && !bytes.Equal(f, g) {
				clean = append(clean, frameRec{raw: g, kind: kind})
				roles = append(roles, ro2)
				continue
			}
		}
		clean = append(clean, frameRec{pdu: ref.Sent(p), raw: f})
		roles = append(roles, ro)
	}
	var out []frameRec
	for i := range clean {
		f := clean[i]
		if r.C.Choose(o.rate) != 0 {
			var other []byte
			if n > 1 {
				other = clean[r.C.Choose(n)].raw
			}
			f.raw, f.kind = wire.Damage(r.C, f.raw, roles[i], other, o.keepHeader)
			if r.C.Choose(6) == 5 {
				var k2 string
				f.raw, k2 = wire.Damage(r.C, f.raw, nil, other, o.keepHeader)
				f.kind += " + " + k2
			}
			if bytes.Equal(f.raw, clean[i].raw) {
				f.kind = clean[i].kind
			}
		}
		if o.reorder {
			switch r.C.Choose(12) {
			case 9:
				r.Fault("frame lost")
				continue
			case 10:
				r.Fault("frame doubled")
				out = append(out, f)
			case 11:
				r.Fault("frame reordered")
				if len(out) > 0 {
					out = append(out[:len(out)-1:len(out)-1], f, out[len(out)-1])
					continue
				}
			}
		}
		out = append(out, f)
	}
	return out
}

func kindClass(k string) string {
	for i := 0; i+3 < len(k); i++ {
		if k[i:i+3] == " + " {
			return "several damages"
		}
	}
	return k
}

// sender of prepared frames.
func (r *Run) spawnSender(name string, l *link, recs []frameRec, end *endSenders) {
	r.S.Spawn(name, func() {
		defer end.one()
		for _, f := range recs {
			r.pause()
			if f.kind != "" {
				r.Fault(kindClass(f.kind))
			}
			l.send(f, f.raw)
		}
	})
}

// judgeHeader compares the library's answer with the reference.
func (r *Run) judgeHeader(h []byte, pdu agentx.Pdu, ok bool) {
	want, v, why := ref.DecodeHeader(h)
	r.Checked()
	switch {
	case v == ref.Reject && ok:
		r.Fail("malformed header accepted", "header %x (%s) accepted as %s", h, why, describe(pdu))
	case v == ref.Accept && !ok:
		r.Fail("valid header refused", "header %x refused", h)
	case ok:
		if s := ref.HeaderDiff(want, pdu); s != "" {
			r.Fail("header misread", "header %x: %s", h, s)
		}
		if want.PayloadSize != pdu.PayloadSize {
			r.Fail("header misread", "header %x: payload length %d read as %d", h, want.PayloadSize, pdu.PayloadSize)
		}
	}
}

func maskInclude(p agentx.Pdu) agentx.Pdu {
	p = ref.Dup(p)
	for i := range p.Ranges {
		p.Ranges[i].StartIncluded = 0
	}
	return p
}

// judgePayload compares the library's answer (pdu, ok) for a payload with the
// reference's. It returns the verdict.
func (r *Run) judgePayload(h, d []byte, pdu agentx.Pdu, ok bool) ref.Verdict {
	want, _, _ := ref.DecodeHeader(h)
	v, why := ref.DecodePayload(&want, d)
	r.Checked()
	switch {
	case v == ref.Reject && ok:
		r.Fail("malformed payload accepted", "%s payload (%s) accepted: header %x payload %s\nread as %s", ref.Name(byte(want.Tag)), why, h, hexs(d), describe(pdu))
	case v == ref.Accept && !ok:
		r.Fail("valid payload refused", "%s payload refused: header %x payload %s", ref.Name(byte(want.Tag)), h, hexs(d))
	case ok:
		a, b := want, pdu
		if v == ref.Grey {
			a, b = maskInclude(a), maskInclude(b)
		}
		if s := ref.Diff(a, b); s != "" {
			r.Fail("payload misread", "%s payload misread: %s: header %x payload %s", ref.Name(byte(want.Tag)), s, h, hexs(d))
		}
	}
	if ok {
		r.Probe("payload " + v.String() + ", accepted")
	} else {
		r.Probe("payload " + v.String() + ", refused")
	}
	return v
}

const maxPayload = 1 << 20

func setupC03(r *Run) func() {
	o := faultOpt{rate: 2 + r.C.Choose(4), reorder: r.C.Choose(2) == 1}
	nl := 1 + r.C.Choose(2)
	damaged := 0
	for i := 0; i < nl; i++ {
		o.keepHeader = r.C.Choose(3) != 2
		l := &link{r: r}
		recs := makeFrames(r, 2+r.C.Choose(6), o)
		for _, f := range recs {
			if f.kind != "" {
				damaged++
			}
		}
		r.spawnSender(fmt.Sprintf("sender%d", i), l, recs, &endSenders{1, l})
		r.S.Spawn(fmt.Sprintf("receiver%d", i), func() {
			hbuf, pbuf := wire.NewBuf(r.C), wire.NewBuf(r.C)
			for ci := 0; ; ci++ {
				k := l.accept(ci)
				if k == nil {
					return
				}
				for {
					h := hbuf.Get(ref.HeaderSize)
					n, full := k.ReadFull(h)
					if n == 0 {
						break
					}
					if full && r.C.Chance(1, 16) { // a receiver that reads too much
						r.Fault("oversized header")
						long := append(append([]byte{}, h...), make([]byte, 1+r.C.Choose(8))...)
						pdu, ok := r.header(long)
						r.judgeHeader(long, pdu, ok)
					}
					// an incomplete header is an input like any other
					pdu, ok := r.header(h[:n])
					r.judgeHeader(h[:n], pdu, ok)
					r.S.Observe("header %v", ok)
					if !full {
						break
					}
					if !ok || pdu.PayloadSize > maxPayload {
						k.Reset() // cannot find the next frame: give up the connection
						break
					}
					d := pbuf.Get(int(pdu.PayloadSize))
					n, full = k.ReadFull(d)
					if !full {
						d = d[:n]
					}
					var keep agentx.Pdu
					in := pdu
					ok = r.payload(&pdu, d)
					r.judgePayload(h, d, pdu, ok)
					r.S.Observe("payload %d %v", in.Tag, ok)
					if ok {
						keep = ref.Dup(pdu)
					}
					pbuf.Scribble(d, 0x3C)
					hbuf.Scribble(h, 0xC3)
					if ok {
						if s := ref.Diff(keep, pdu); s != "" {
							r.Fail("PDU changed after delivery", "%s", s)
						}
					}
					if !full {
						break
					}
				}
			}
		})
	}
	r.trivial = damaged == 0
	return nil
}
