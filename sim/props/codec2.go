package props

import (
	"bytes"
	"fmt"
	"runtime"
	"syscall"
	"time"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/logger"
	"github.com/alexispb/mygosnmp/oid"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif.local/sim/gen"
	"verif.local/sim/ref"
	"verif.local/sim/rt"
	"verif.local/sim/wire"
)

// simLog is a logger whose Write takes simulated time: the scheduler may run
// other tasks inside it.
// BreakConsole puts something that cannot be written to in the place of the
// standard output (1: full, 2: not writable), or repairs it (0).
var BreakConsole func(kind int)

type simLog struct {
	r     *Run
	n     int
	bytes int
	slow  int
	lines []string
	keep  bool
	con   logger.Log // gets every message, too
}

func (l *simLog) Write(msg string) {
	l.n++
	l.bytes += len(msg)
	if l.con != nil {
		l.con.Writef("%s", msg)
		l.con.Write(msg)
	}
	if l.keep {
		l.lines = append(l.lines, msg)
	}
	rt.Y(-1)
	if l.slow > 0 && l.n%l.slow == 0 {
		l.r.Fault("slow logger")
		l.r.S.Sleep(7)
	}
}

func (l *simLog) Writef(format string, args ...interface{}) {
	if rt.RaceBuild {
		// fmt keeps its buffers in a pool: using it here would order the
		// callers and hide races
		for _, a := range args {
			if s, ok := a.(string); ok {
				l.bytes += len(s)
			}
		}
		l.Write(format)
		return
	}
	l.Write(fmt.Sprintf(format, args...))
}

func (r *Run) newLog() *simLog {
	return &simLog{r: r, slow: []int{0, 0, 1, 3, 10}[r.C.Choose(5)]}
}

func (r *Run) encodeDbg(p agentx.Pdu, log *simLog) (data []byte, ok bool) {
	r.Call("EncodePduDbg", func() { data, ok = agentx.EncodePduDbg(p, log) })
	return
}

func (r *Run) headerDbg(h []byte, log *simLog) (p agentx.Pdu, ok bool) {
	r.Call("DecodePduHeaderDbg", func() { p, ok = agentx.DecodePduHeaderDbg(h, log) })
	return
}

func (r *Run) payloadDbg(p *agentx.Pdu, data []byte, log *simLog) (ok bool) {
	r.Call("DecodePduPayloadDbg", func() { ok = agentx.DecodePduPayloadDbg(p, data, log) })
	return
}

// ---- C04: hostile input

// allocs is the number of bytes f allocates, without letting anything else run
// (ok: that was possible).
func allocs(f func()) (n uint64, ok bool) {
	ok = rt.Alone(func() {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		defer func() {
			runtime.ReadMemStats(&b)
			n = b.TotalAlloc - a.TotalAlloc
		}()
		f()
	})
	return
}

const (
	allocBase   = 64 << 10
	allocFactor = 96
	stepBase    = 20000
	stepFactor  = 100
)

// bounded calls f, which decodes n bytes of input, and checks what it costs.
// times: how much more it may cost than the plain decoder.
func (r *Run) bounded(what string, n, times int, f func()) {
	s0 := r.S.Steps()
	got, ok := allocs(f)
	r.Checked()
	if !ok {
		return // waited for other calls, what it cost cannot be told
	}
	if lim := uint64(times) * uint64(allocBase+allocFactor*n); got > lim {
		r.Fail("allocation out of proportion", "%s of %d bytes of input allocated %d bytes", what, n, got)
	}
	if st := r.S.Steps() - s0; st > int64(times)*int64(stepBase+stepFactor*n) {
		r.Fail("work out of proportion", "%s of %d bytes of input took %d steps", what, n, st)
	}
}

func hostile(r *Run, recs []frameRec) [][]byte {
	var out [][]byte
	for _, f := range recs {
		switch r.C.Choose(8) {
		case 0: // noise with a valid header
			n := 4 * r.C.Choose(40)
			g := make([]byte, 20+n)
			copy(g, f.raw[:min(20, len(f.raw))])
			s := rt.NewStream(r.C.Word())
			sparse := r.C.Choose(2) == 1
			for i := 20; i < len(g); i++ {
				g[i] = byte(s.Next())
				if sparse && s.Next()%4 != 0 {
					g[i] = 0
				}
			}
			wire.FixLen(g)
			r.Fault("noise payload")
			out = append(out, g)
		case 1: // pure noise
			g := make([]byte, r.C.Choose(200))
			s := rt.NewStream(r.C.Word())
			for i := range g {
				g[i] = byte(s.Next())
			}
			if r.C.Choose(2) == 1 && len(g) > 4 {
				g[0], g[1], g[3] = 1, byte(1+r.C.Choose(18)), 0
				g[2] &= ref.AllowedFlags(g[1])
			}
			r.Fault("noise frame")
			out = append(out, g)
		case 2: // a list of the smallest items
			g := append([]byte{}, f.raw[:min(20, len(f.raw))]...)
			n := r.C.Choose(60)
			if r.C.Chance(1, 24) {
				n = 1000 + r.C.Choose(4000)
			}
			item := [][]byte{{0, 0, 0, 0}, {0, 0, 0, 0, 0, 2, 0, 0}, {0, 5, 0, 0, 0, 0, 0, 0}, {5, 0, 0, 0, 0, 0, 0, 0}}[r.C.Choose(4)]
			for ; n > 0; n-- {
				g = append(g, item...)
			}
			wire.FixLen(g)
			r.Fault("many null items")
			out = append(out, g)
		default:
			out = append(out, f.raw)
		}
	}
	return out
}

// cpuLimit is for decoding giantSize bytes, which takes well below a second.
// Work that is hidden from the statement count (in copies, or inside the
// standard library) and grows with the square of the input takes minutes.
const (
	giantSize = 4 << 20
	cpuLimit  = 15 * time.Second
)

// cpu is the processor time f takes, without letting anything else run.
func cpu(f func()) (d time.Duration) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var a, b syscall.Rusage
	const thread = 1
	syscall.Getrusage(thread, &a)
	defer func() {
		syscall.Getrusage(thread, &b)
		d = time.Duration(b.Utime.Nano() - a.Utime.Nano() + b.Stime.Nano() - a.Stime.Nano())
	}()
	rt.Alone(f)
	return
}

// giantHostile sends a frame of 4 MB made of the smallest items, or of items
// of one kind, possibly ending in damage.
func (r *Run) giantHostile() func() {
	c := r.C
	tag := []byte{5, 18, 6, 8, 7, 12, 14, 15, 1, 16}[c.Choose(10)]
	f := make([]byte, 20, 20+giantSize+64)
	f[0], f[1], f[2] = 1, tag, byte(16*c.Choose(2))
	be := f[2] != 0
	u16 := func(v uint16) {
		if be {
			f = append(f, byte(v>>8), byte(v))
		} else {
			f = append(f, byte(v), byte(v>>8))
		}
	}
	u32 := func(v uint32) {
		if be {
			u16(uint16(v >> 16))
			u16(uint16(v))
		} else {
			u16(uint16(v))
			u16(uint16(v >> 16))
		}
	}
	kind := c.Choose(6)
	id := func(n int) {
		f = append(f, byte(n), 0, 0, 0)
		for ; n > 0; n-- {
			u32(uint32(n))
		}
	}
	idLen := []int{0, 1, 128}[c.Choose(3)]
	switch {
	case tag == 1 || tag == 16:
		if tag == 1 {
			f = append(f, 0, 0, 0, 0)
		}
		id(idLen)
		n := giantSize - 16 - 4*idLen
		u32(uint32(n))
		f = append(f, make([]byte, n)...)
	case tag >= 5 && tag <= 7:
		if tag == 7 {
			u32(0)
		}
		for len(f) < giantSize {
			id(idLen)
			id(0)
		}
	default:
		if tag == 18 {
			u32(0)
			u32(0)
		}
		for len(f) < giantSize {
			switch kind {
			case 0:
				u16(5)
				u16(0)
				id(idLen)
			case 1:
				u16(4)
				u16(0)
				id(idLen)
				u32(0)
			case 2:
				u16(68)
				u16(0)
				id(0)
				u32(4)
				u32(0x01020304)
			case 3:
				u16(6)
				u16(0)
				id(0)
				id(idLen)
			case 4:
				u16(70)
				u16(0)
				id(0)
				u32(1)
				u32(2)
			case 5:
				u16(64)
				u16(0)
				id(0)
				u32(4)
				u32(0x7F000001)
			}
		}
	}
	if c.Choose(2) == 1 {
		f = append(f, 0xFF, 0xFF, 0xFF, 0xFF)
	}
	wire.FixLen(f)
	r.Fault("giant hostile frame")
	r.S.Spawn("receiver", func() {
		pdu, ok := r.header(f[:20])
		var d time.Duration
		r.bounded("DecodePduPayload", len(f)-20, 1, func() {
			d = cpu(func() { ok = r.payload(&pdu, f[20:]) })
		})
		if d > cpuLimit {
			r.Fail("work out of proportion", "DecodePduPayload of %d bytes of input took more than %s of processor time", len(f)-20, cpuLimit)
		}
		r.S.Observe("giant %d %v", tag, ok)
		r.Probe("giant hostile frame")
	})
	return nil
}

func setupC04(r *Run) func() {
	if r.C.Chance(1, 5000) {
		return r.giantHostile()
	}
	nt := 1 + r.C.Choose(3)
	damaged := 0
	for i := 0; i < nt; i++ {
		recs := makeFrames(r, 2+r.C.Choose(5), faultOpt{rate: 6, small: r.C.Choose(8) != 7, keepHeader: r.C.Choose(2) == 1})
		for _, f := range recs {
			if f.kind != "" {
				damaged++
				r.Fault(kindClass(f.kind))
			}
		}
		frames := hostile(r, recs)
		r.S.Spawn(fmt.Sprintf("receiver%d", i), func() {
			for _, f := range frames {
				r.pause()
				h, d := f[:min(20, len(f))], f[min(20, len(f)):]
				hh := append(make([]byte, 0, 24), h...)
				dd := append(make([]byte, 0, len(d)+8), d...)
				var pdu agentx.Pdu
				var ok bool
				r.bounded("DecodePduHeader", len(hh), 1, func() { pdu, ok = r.header(hh) })
				hdrOK := ok
				if !ok && r.C.Choose(2) == 1 { // decode the payload all the same
					r.Probe("payload decoded after a refused header")
					pdu.PayloadSize = int32(len(dd))
				}
				if r.C.Choose(3) == 2 && len(dd) > 0 { // end of the stream
					cut := r.C.Choose(len(dd) + 1)
					dd = dd[:cut]
					r.Fault("end of stream")
					if r.C.Choose(2) == 1 {
						pdu.PayloadSize = int32(cut)
					}
				}
				in := pdu
				r.bounded("DecodePduPayload", len(dd), 1, func() { ok = r.payload(&pdu, dd) })
				r.S.Observe("%v %v", hdrOK, ok)
				r.Probe(fmt.Sprintf("header accepted %v, payload accepted %v", hdrOK, ok))
				if r.C.Choose(3) == 2 && (len(f) < 1500 || r.C.Chance(1, 20)) {
					log := &simLog{r: r}
					r.bounded("DecodePduHeaderDbg", len(hh), 12, func() { r.headerDbg(hh, log) })
					p2 := in
					p2.Ranges, p2.Varbinds = nil, nil
					r.bounded("DecodePduPayloadDbg", len(dd), 12, func() { r.payloadDbg(&p2, dd, log) })
				}
			}
		})
	}
	r.trivial = damaged == 0
	return nil
}

// ---- C05: a refused frame leaves no trace

func setupC05(r *Run) func() {
	type expect struct {
		sid, tid, pid uint32
	}
	nl := 1 + r.C.Choose(2)
	damaged := 0
	type conv struct {
		fwd, back *link
		refused   []expect
		replies   []agentx.Pdu
		answered  []agentx.Pdu
		good      int
	}
	var convs []*conv
	for i := 0; i < nl; i++ {
		cv := &conv{fwd: &link{r: r}, back: &link{r: r}}
		convs = append(convs, cv)
		o := faultOpt{rate: 2 + r.C.Choose(2), keepHeader: true, small: true}
		recs := makeFrames(r, 3+r.C.Choose(6), o)
		// now and then a frame whose header is damaged: the connection is given up
		if r.C.Choose(4) == 3 {
			k := r.C.Choose(len(recs))
			bad := frameRec{raw: append([]byte{}, recs[k].raw...), kind: "header destroyed"}
			bad.raw[[]int{0, 1, 3}[r.C.Choose(3)]] = 0xFF
			recs = append(recs[:k:k], append([]frameRec{bad}, recs[k:]...)...)
		}
		for _, f := range recs {
			if f.kind != "" {
				damaged++
			}
		}
		reuse := r.C.Choose(3)
		withDbg := r.C.Choose(2) == 1
		r.spawnSender(fmt.Sprintf("master%d", i), cv.fwd, recs, &endSenders{1, cv.fwd})
		r.S.Spawn(fmt.Sprintf("subagent%d", i), func() {
			defer cv.back.finish()
			hbuf, pbuf := wire.NewBuf(r.C), wire.NewBuf(r.C)
			var kept agentx.Pdu // reused for every frame
			for ci := 0; ; ci++ {
				k := cv.fwd.accept(ci)
				if k == nil {
					return
				}
				for {
					h := hbuf.Get(ref.HeaderSize)
					if n, full := k.ReadFull(h); !full {
						if n != 0 && !k.Dead() {
							r.Fail("stream out of step", "%d bytes left over", n)
						}
						break
					}
					pdu, ok := r.header(h)
					r.judgeHeader(h, pdu, ok)
					if !ok {
						k.Reset()
						break
					}
					if pdu.PayloadSize > maxPayload {
						r.Fail("stream out of step", "header %x announces %d bytes", h, pdu.PayloadSize)
					}
					d := pbuf.Get(int(pdu.PayloadSize))
					if _, full := k.ReadFull(d); !full {
						if !k.Dead() {
							r.Fail("stream out of step", "frame cut short")
						}
						break
					}
					head := pdu
					p := &pdu
					if reuse > 0 {
						// the same Pdu variable takes one frame after the other
						kept.Tag, kept.Flags, kept.PayloadSize = pdu.Tag, pdu.Flags, pdu.PayloadSize
						kept.SessionId, kept.TransactionId, kept.PacketId = pdu.SessionId, pdu.TransactionId, pdu.PacketId
						p = &kept
						r.Probe("Pdu variable reused")
					}
					ok = r.payload(p, d)
					v := r.judgePayload(h, d, *p, ok)
					if s := ref.HeaderDiff(head, *p); s != "" || head.PayloadSize != p.PayloadSize {
						r.Fail("header fields lost", "decoding a payload (accepted: %v) changed the header fields: %s", ok, s)
					}
					// the verdict does not depend on what was decoded before
					if r.C.Choose(3) == 0 {
						q := head
						ok2 := r.payload(&q, d)
						if ok2 != ok {
							r.Fail("verdict not repeatable", "payload of %s: first %v then %v: header %x payload %s", ref.Name(byte(head.Tag)), ok, ok2, h, hexs(d))
						}
						if ok {
							if s := ref.Diff(q, *p); s != "" {
								r.Fail("result not repeatable", "%s", s)
							}
						}
						r.Checked()
					}
					r.S.Observe("payload %d %v %v", head.Tag, v, ok)
					if ok {
						cv.good++
						if reuse == 2 && r.C.Choose(2) == 1 {
							scramble(p) // the application uses its PDU up
						}
					} else {
						// what the documentation shows: answer ParseError, then go on
						cv.refused = append(cv.refused, expect{head.SessionId, head.TransactionId, head.PacketId})
						rep := *p
						rep.Tag = agentx.TagResponse
						rep.Params = agentx.ResponseParams{Error: pduerror.ParseError}
						if r.C.Choose(2) == 1 {
							rep.Varbinds, rep.Ranges, rep.Context = nil, nil, ""
						}
						frame, ok := r.encode(rep)
						if !ok {
							r.Fail("reply refused", "the ParseError reply to a refused %s cannot be encoded: %s", ref.Name(byte(head.Tag)), describe(rep))
						}
						cv.replies = append(cv.replies, ref.Sent(rep))
						cv.back.send(frameRec{}, frame)
						if withDbg {
							log := r.newLog()
							q, _ := r.headerDbg(h, log)
							r.payloadDbg(&q, d, log)
						}
					}
					pbuf.Scribble(d, 0x3C)
				}
			}
		})
		r.S.Spawn(fmt.Sprintf("replies%d", i), func() {
			for ci := 0; ; ci++ {
				k := cv.back.accept(ci)
				if k == nil {
					return
				}
				for {
					h := make([]byte, 20)
					if _, full := k.ReadFull(h); !full {
						break
					}
					pdu, ok := r.header(h)
					if !ok || pdu.PayloadSize > maxPayload {
						r.Fail("reply lost", "header of a reply refused: %x", h)
					}
					d := make([]byte, pdu.PayloadSize)
					if _, full := k.ReadFull(d); !full {
						r.Fail("reply lost", "reply cut short")
					}
					if !r.payload(&pdu, d) {
						r.Fail("reply lost", "payload of a reply refused: %x %s", h, hexs(d))
					}
					cv.answered = append(cv.answered, pdu)
				}
			}
		})
	}
	r.trivial = damaged == 0
	return func() {
		for _, cv := range convs {
			if len(cv.answered) != len(cv.refused) {
				r.Fail("reply lost", "%d frames refused, %d replies received", len(cv.refused), len(cv.answered))
			}
			for i, e := range cv.refused {
				a := cv.answered[i]
				q, isResp := a.Params.(agentx.ResponseParams)
				if a.SessionId != e.sid || a.TransactionId != e.tid || a.PacketId != e.pid || a.Tag != agentx.TagResponse ||
					!isResp || q.Error != pduerror.ParseError {
					r.Fail("reply misaddressed", "reply %s does not answer %+v", describe(a), e)
				}
				if s := ref.Diff(cv.replies[i], a); s != "" {
					r.Fail("reply changed in transit", "%s", s)
				}
				r.Checked()
			}
		}
	}
}

// ---- C06: debug variants agree

func setupC06(r *Run) func() {
	nt := 1 + r.C.Choose(3)
	work := 0
	r.G.Small = true
	var con logger.Log
	if BreakConsole != nil {
		BreakConsole(0)
		if kind := r.C.Choose(16) - 13; kind > 0 { // the console cannot be written
			BreakConsole(kind)
			r.Fault([]string{"", "standard output full", "standard output not writable"}[kind])
			con = logger.Console()
		}
	}
	for i := 0; i < nt; i++ {
		recs := makeFrames(r, 1+r.C.Choose(3), faultOpt{rate: 3, small: true, keepHeader: r.C.Choose(3) != 2})
		var pdus []agentx.Pdu
		for n := r.C.Choose(3); n > 0; n-- {
			p := r.G.Pdu()
			if r.C.Choose(2) == 1 {
				r.Fault("misuse: " + r.G.Misuse(&p))
			}
			pdus = append(pdus, p)
		}
		work += len(recs) + len(pdus)
		log := r.newLog()
		log.con = con
		if r.C.Chance(1, 40) { // a large one
			p := r.G.Large()
			if f, _, ok := ref.Encode(p, ref.Opt{}); ok {
				r.Probe("large PDU")
				recs = append(recs, frameRec{raw: f, pdu: p})
				pdus = append(pdus, p)
			}
		}
		r.S.Spawn(fmt.Sprintf("user%d", i), func() {
			for _, f := range recs {
				if len(f.raw) > 6000 && f.kind != "" {
					continue
				}
				if f.kind != "" {
					r.Fault(kindClass(f.kind))
				}
				h := f.raw[:min(20, len(f.raw))]
				if r.C.Chance(1, 16) && len(f.raw) > 24 {
					h = f.raw[:20+r.C.Choose(5)]
				}
				r.debugDecode(h, f.raw[min(20, len(f.raw)):], log)
				r.pause()
			}
			for _, p := range pdus {
				r.debugEncode(p, log)
				r.pause()
			}
		})
	}
	r.trivial = work < 2
	return func() {
		if con != nil {
			BreakConsole(0)
		}
	}
}

func (r *Run) debugDecode(h, d []byte, log *simLog) {
	a, ok := r.header(h)
	n := log.n
	b, okd := r.headerDbg(h, log)
	r.Checked()
	if ok != okd {
		r.Fail("debug variant disagrees", "header %x: %v, debug variant %v", h, ok, okd)
	}
	if log.n == n {
		r.Fail("nothing logged", "header %x: nothing logged", h)
	}
	if !ok {
		return
	}
	if s := ref.Diff(a, b); s != "" || a.PayloadSize != b.PayloadSize {
		r.Fail("debug variant disagrees", "header %x: %s, payload %d and %d", h, s, a.PayloadSize, b.PayloadSize)
	}
	// the payload as it came, and cut to what the header announces
	if n := int(a.PayloadSize); r.C.Choose(3) != 0 && n <= len(d) {
		d = d[:n]
	}
	if r.C.Choose(4) == 3 { // both into a used Pdu
		a.Ranges = append(a.Ranges, r.G.Range())
		a.Varbinds = append(a.Varbinds, r.G.Varbind())
		a.Context = "left over"
		b = ref.Dup(a)
	}
	ok = r.payload(&a, append([]byte{}, d...))
	n = log.n
	okd = r.payloadDbg(&b, append([]byte{}, d...), log)
	r.Checked()
	r.Probe(fmt.Sprintf("payload accepted %v", ok))
	if ok != okd {
		r.Fail("debug variant disagrees", "%s: %v, debug variant %v: header %x payload %s", ref.Name(byte(a.Tag)), ok, okd, h, hexs(d))
	}
	if log.n == n {
		r.Fail("nothing logged", "payload %x: nothing logged", d)
	}
	if ok {
		if s := ref.Diff(a, b); s != "" || a.PayloadSize != b.PayloadSize {
			r.Fail("debug variant disagrees", "%s: %s: header %x payload %s", ref.Name(byte(a.Tag)), s, h, hexs(d))
		}
	}
	r.S.Observe("decode %v", ok)
}

func (r *Run) debugEncode(p agentx.Pdu, log *simLog) {
	q := ref.Dup(p)
	a, ok := r.encode(p)
	n := log.n
	b, okd := r.encodeDbg(q, log)
	r.Checked()
	r.Probe(fmt.Sprintf("encoded %v", ok))
	if ok != okd {
		r.Fail("debug variant disagrees", "encoding %s: %v, debug variant %v", describe(p), ok, okd)
	}
	if log.n == n {
		r.Fail("nothing logged", "encoding %s: nothing logged", describe(p))
	}
	if ok && !bytes.Equal(a, b) {
		r.Fail("debug variant disagrees", "encoding %s:\n%s\n%s", describe(p), hexs(a), hexs(b))
	}
	r.S.Observe("encode %v", ok)
}

// ---- C07: ownership of memory

func growAll(p *agentx.Pdu) {
	// appending to a slice of a decoded PDU must not reach anything else
	grow := func(id []uint32) {
		_ = append(id, 0xDEADBEEF, 0xDEADBEEF, 0xDEADBEEF, 0xDEADBEEF, 0xDEADBEEF, 0xDEADBEEF)
	}
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		grow(q.Oid)
	case agentx.RegisterParams:
		grow(q.Subtree)
	case agentx.UnregisterParams:
		grow(q.Subtree)
	case agentx.AddAgentCapsParams:
		grow(q.Oid)
	case agentx.RemoveAgentCapsParams:
		grow(q.Oid)
	}
	for i := range p.Ranges {
		grow(p.Ranges[i].StartOid)
		grow(p.Ranges[i].EndOid)
	}
	for i := range p.Varbinds {
		grow(p.Varbinds[i].Oid)
		switch v := p.Varbinds[i].Value.(type) {
		case []uint32:
			grow(v)
		case []byte:
			_ = append(v, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD)
		}
	}
	_ = append(p.Ranges, agentx.SearchRange{StartIncluded: 77})
	_ = append(p.Varbinds, p.Varbinds...)
}

func setupC07(r *Run) func() {
	nt := 1 + r.C.Choose(3)
	type held struct {
		what string
		pdu  *agentx.Pdu
		want agentx.Pdu
		data []byte
		copy []byte
	}
	var all [][]held
	giant := r.C.Choose(3000) == 2999
	for i := 0; i < nt; i++ {
		var pdus []agentx.Pdu
		useDbg := r.C.Choose(4) == 3
		reuse := r.C.Choose(3) == 2
		r.G.Small = useDbg
		for n := 1 + r.C.Choose(4); n > 0; n-- {
			pdus = append(pdus, r.G.Pdu())
		}
		if giant && i == 0 && !useDbg {
			r.Probe("giant PDU")
			pdus[0] = r.G.Giant()
		}
		i := i
		all = append(all, nil)
		r.S.Spawn(fmt.Sprintf("user%d", i), func() {
			var hold []held
			defer func() { all[i] = hold }()
			buf := wire.NewBuf(r.C)
			check := func() {
				for _, x := range hold {
					r.Checked()
					if x.pdu != nil {
						if s := ref.Diff(x.want, *x.pdu); s != "" {
							r.Fail("kept PDU changed", "%s: %s", x.what, s)
						}
					} else if !bytes.Equal(x.data, x.copy) {
						r.Fail("kept frame changed", "%s", x.what)
					}
				}
			}
			log := &simLog{r: r}
			var last agentx.Pdu
			enc := func(p agentx.Pdu) ([]byte, bool) {
				if useDbg {
					return r.encodeDbg(p, log)
				}
				return r.encode(p)
			}
			dec := func(p *agentx.Pdu, d []byte) bool {
				if useDbg {
					return r.payloadDbg(p, d, log)
				}
				return r.payload(p, d)
			}
			for _, p := range pdus {
				src := ref.Dup(p)
				frame, ok := enc(src)
				if !ok {
					r.Fail("valid PDU refused", "%s", describe(p))
				}
				// encoding reads its argument only
				if s := ref.Diff(p, src); s != "" || src.PayloadSize != p.PayloadSize {
					r.Fail("argument changed", "EncodePdu changed its argument: %s", s)
				}
				if !ref.SlackOK(src) {
					r.Fail("argument changed", "EncodePdu wrote behind a slice of its argument %s", describe(p))
				}
				r.Checked()
				saved := append([]byte{}, frame...)
				scramble(&src)
				if !bytes.Equal(frame, saved) {
					r.Fail("frame shares memory with the PDU", "changing the PDU %s after encoding changed the frame", describe(p))
				}
				if r.C.Choose(2) == 1 { // the frame is the caller's
					_ = append(frame, 0xEE, 0xEE, 0xEE, 0xEE)
					src = ref.Dup(p)
					f2, _ := enc(src)
					for k := range f2 {
						f2[k] = 0xEE
					}
					if s := ref.Diff(p, src); s != "" {
						r.Fail("frame shares memory with the PDU", "writing to the frame changed the PDU: %s", s)
					}
				}
				check()
				hold = append(hold, held{what: "encoded frame", data: frame, copy: saved})
				r.pause()

				// decoding reads its input only, and keeps nothing of it
				d := buf.Get(len(frame) - 20)
				copy(d, saved[20:])
				full := d[:cap(d)]
				before := append([]byte{}, full...)
				h := append([]byte{}, saved[:20]...)
				hd, ok := r.header(h)
				for k := range h {
					h[k] = 0x99
				}
				pdu := hd
				if reuse { // the variable of the PDU before
					pdu = last
					pdu.Tag, pdu.Flags, pdu.PayloadSize = hd.Tag, hd.Flags, hd.PayloadSize
					pdu.SessionId, pdu.TransactionId, pdu.PacketId = hd.SessionId, hd.TransactionId, hd.PacketId
				}
				if !ok || !dec(&pdu, d) {
					r.Fail("valid frame refused", "%s: %s", describe(p), hexs(saved))
				}
				if !bytes.Equal(full, before) {
					r.Fail("input changed", "decoding %s changed the input buffer", describe(p))
				}
				want := ref.Sent(p)
				if s := ref.Diff(want, pdu); s != "" {
					r.Fail("PDU changed in transit", "%s", s)
				}
				if r.C.Choose(2) == 1 {
					growAll(&pdu)
					if s := ref.Diff(want, pdu); s != "" {
						r.Fail("parts of a decoded PDU share memory", "appending to a part changed another: %s", s)
					}
				}
				if r.C.Choose(2) == 1 {
					// a second copy is independent of the first
					q, _ := r.header(saved[:20])
					if !dec(&q, d) {
						r.Fail("valid frame refused", "second decoding of %s refused", hexs(saved))
					}
					if r.C.Choose(2) == 1 && len(q.Ranges)+len(q.Varbinds) < 2000 { // changing one part changes no other part
						r.oneByOne(&q, want)
					}
					scramble(&q)
					if !bytes.Equal(full, before) {
						r.Fail("PDU shares memory with the input", "changing the decoded %s changed the input buffer", describe(p))
					}
				}
				for k := range d {
					d[k] = byte(0x40 + k)
				}
				if s := ref.Diff(want, pdu); s != "" {
					r.Fail("kept PDU changed", "the buffer was reused: %s", s)
				}
				r.Checked()
				pd := pdu
				last = pdu
				hold = append(hold, held{what: "decoded PDU", pdu: &pd, want: want})
				check()
				r.S.Observe("pdu %d", pdu.Tag)
				r.pause()
			}
			check()
		})
	}
	return func() {
		for _, hold := range all {
			for _, x := range hold {
				if x.pdu != nil {
					if s := ref.Diff(x.want, *x.pdu); s != "" {
						r.Fail("kept PDU changed", "%s: %s", x.what, s)
					}
				} else if !bytes.Equal(x.data, x.copy) {
					r.Fail("kept frame changed", "%s", x.what)
				}
			}
		}
	}
}

// oneByOne changes the parts of a decoded PDU one after the other and checks
// that the others stay.
func (r *Run) oneByOne(q *agentx.Pdu, want agentx.Pdu) {
	want = ref.Dup(want)
	same := func(what string, i int) {
		if s := ref.Diff(want, *q); s != "" {
			r.Fail("parts of a decoded PDU share memory", "changing %s %d changed something else: %s", what, i, s)
		}
	}
	set := func(a, b []uint32) bool {
		if len(a) == 0 || len(a) != len(b) {
			return false
		}
		for k := range a {
			a[k] ^= 0x11
			b[k] ^= 0x11
		}
		return true
	}
	switch a := q.Params.(type) {
	case agentx.OpenParams:
		set(a.Oid, want.Params.(agentx.OpenParams).Oid)
	case agentx.RegisterParams:
		set(a.Subtree, want.Params.(agentx.RegisterParams).Subtree)
	case agentx.UnregisterParams:
		set(a.Subtree, want.Params.(agentx.UnregisterParams).Subtree)
	case agentx.AddAgentCapsParams:
		set(a.Oid, want.Params.(agentx.AddAgentCapsParams).Oid)
	case agentx.RemoveAgentCapsParams:
		set(a.Oid, want.Params.(agentx.RemoveAgentCapsParams).Oid)
	}
	same("identifier in the params", 0)
	for i := range q.Ranges {
		set(q.Ranges[i].StartOid, want.Ranges[i].StartOid)
		same("start of range", i)
		set(q.Ranges[i].EndOid, want.Ranges[i].EndOid)
		same("end of range", i)
	}
	for i := range q.Varbinds {
		set(q.Varbinds[i].Oid, want.Varbinds[i].Oid)
		same("name of varbind", i)
		switch v := q.Varbinds[i].Value.(type) {
		case []uint32:
			w, _ := want.Varbinds[i].Value.([]uint32)
			set(v, w)
		case []byte:
			w, _ := want.Varbinds[i].Value.([]byte)
			for k := range v {
				v[k] ^= 0x11
				w[k] ^= 0x11
			}
		}
		same("value of varbind", i)
	}
}

// ---- C08: concurrent calls

type codecOp struct {
	kind  int
	pdu   agentx.Pdu
	mine  *agentx.Pdu // changed by edit before the call
	edit  gen.Edit
	alone agentx.Pdu // as it is at the time of the call
	h, d  []byte
	slot  int
	name  string
	serOK bool
	ser   []byte
	serP  agentx.Pdu
	serS  string

	ok   bool
	out  []byte
	outP agentx.Pdu
	outS string
	done bool
}

func (o *codecOp) run(r *Run, log *simLog) (ok bool, out []byte, p agentx.Pdu, s string) {
	switch o.kind {
	case 0:
		out, ok = r.encode(o.pdu)
	case 1:
		p, ok = r.header(o.h)
		if ok {
			ok = r.payload(&p, o.d)
		}
	case 2:
		out, ok = r.encodeDbg(o.pdu, log)
	case 3:
		p, ok = r.headerDbg(o.h, log)
		if ok {
			ok = r.payloadDbg(&p, o.d, log)
		}
	case 4:
		r.Call("Pdu.String", func() { s = o.pdu.String(o.slot % 3) })
		ok = true
	case 5:
		r.Call("String", func() { s = printParts(o.pdu) })
		ok = true
	}
	return
}

var opNames = []string{"EncodePdu", "DecodePdu", "EncodePduDbg", "DecodePduDbg", "Pdu.String", "String"}

func printParts(p agentx.Pdu) string {
	s := p.Tag.String() + p.Flags.String()
	for _, x := range p.Ranges {
		s += x.String() + oid.String(x.StartOid)
	}
	for _, x := range p.Varbinds {
		s += x.String()
	}
	switch q := p.Params.(type) {
	case agentx.CloseParams:
		s += q.Reason.String()
	case agentx.ResponseParams:
		s += q.Error.String()
	}
	return s
}

func setupC08(r *Run) func() {
	nt := 2 + r.C.Choose(4)
	r.G.Small = true
	// inputs, some of them shared between the tasks
	var pdus []agentx.Pdu
	var frames [][]byte
	for n := 1 + r.C.Choose(4); n > 0; n-- {
		p := r.G.Pdu()
		f, roles, ok := ref.Encode(p, ref.Opt{})
		if !ok {
			panic("generator")
		}
		frames = append(frames, f)
		if r.C.Choose(3) == 2 {
			g, kind := wire.Damage(r.C, f, roles, frames[0], r.C.Choose(2) == 1)
			if len(g) >= 20 {
				r.Fault(kind)
				frames = append(frames, g)
			}
		}
		if r.C.Choose(4) == 3 {
			q := ref.Dup(p)
			r.Fault("misuse: " + r.G.Misuse(&q))
			pdus = append(pdus, q)
		}
		pdus = append(pdus, p)
	}
	kinds := [][]int{{0, 1}, {0, 1, 2, 3, 4, 5}, {1}, {0}, {1, 1, 1, 3}, {5, 0, 1}, {3, 5}, {5, 4}}[r.C.Choose(8)]
	tasks := make([][]*codecOp, nt)
	logs := make([]*simLog, nt)
	slog := &simLog{r: r}
	total := 0
	for i := range tasks {
		logs[i] = &simLog{r: r}
		var mine *agentx.Pdu
		var shadow agentx.Pdu
		for n := 1 + r.C.Choose(4); n > 0; n-- {
			o := &codecOp{kind: kinds[r.C.Choose(len(kinds))], slot: r.C.Choose(6)}
			o.name = opNames[o.kind]
			o.pdu = pdus[r.C.Choose(len(pdus))]
			f := frames[r.C.Choose(len(frames))]
			o.h, o.d = f[:20], f[20:]
			if len(f) > 3000 && o.kind == 3 {
				o.kind = 1
			}
			if mine != nil && r.C.Choose(2) == 1 { // the own PDU again, changed in place
				o.edit = r.G.Tweak(&shadow)
				o.edit.Apply(&shadow)
				o.pdu, o.mine = ref.Dup(shadow), mine
			} else if o.kind != 1 && o.kind != 3 && r.C.Choose(3) == 2 {
				if _, _, can := ref.Encode(o.pdu, ref.Opt{}); can {
					p := ref.Dup(o.pdu)
					mine, shadow = &p, ref.Dup(p)
					o.mine, o.edit.K = mine, -1
				}
			}
			if o.mine == nil && r.C.Choose(2) == 1 { // own copy
				o.pdu = ref.Dup(o.pdu)
				o.h, o.d = append([]byte{}, o.h...), append([]byte{}, o.d...)
			}
			tasks[i] = append(tasks[i], o)
			total++
		}
	}
	// the same calls, one after the other
	serial := func() {
		for _, ops := range tasks {
			for _, o := range ops {
				now := o.pdu
				o.pdu = o.alone
				ok, out, p, s := o.run(r, slog)
				o.pdu = now
				o.serOK, o.ser, o.serP, o.serS = ok, append([]byte{}, out...), ref.Dup(p), s
				if o.kind == 0 || o.kind == 2 {
					if _, _, can := ref.Encode(o.alone, ref.Opt{}); can != ok {
						r.Fail("serial answer wrong", "%s of %s: %v", o.name, describe(o.alone), ok)
					}
				}
			}
		}
	}
	for _, ops := range tasks {
		for _, o := range ops {
			o.alone = ref.Dup(o.pdu)
		}
	}
	after := r.C.Choose(2) == 1 // what the library remembers is new to the tasks
	if !after {
		serial()
	}
	for i := range tasks {
		i := i
		r.S.Spawn(fmt.Sprintf("caller%d", i), func() {
			for _, o := range tasks[i] {
				if o.mine != nil {
					o.edit.Apply(o.mine)
					o.pdu = *o.mine
				}
				o.ok, o.out, o.outP, o.outS = o.run(r, logs[i])
				o.done = true
			}
		})
	}
	r.trivial = total < 3
	return func() {
		if after {
			serial()
		}
		for i, ops := range tasks {
			for _, o := range ops {
				r.Checked()
				if !o.done {
					r.Fail("call lost", "caller%d: %s did not return", i, o.name)
				}
				if o.ok != o.serOK {
					r.Fail("concurrent answer differs", "caller%d: %s: alone %v, with others %v", i, o.name, o.serOK, o.ok)
				}
				if o.outS != o.serS {
					r.Fail("concurrent answer differs", "caller%d: %s: %q, alone %q", i, o.name, o.outS, o.serS)
				}
				if !o.ok {
					continue
				}
				if (o.kind == 0 || o.kind == 2) && !bytes.Equal(o.out, o.ser) {
					r.Fail("concurrent answer differs", "caller%d: %s: alone %s\nwith others %s", i, o.name, hexs(o.ser), hexs(o.out))
				}
				if o.kind == 1 || o.kind == 3 {
					if s := ref.Diff(o.serP, o.outP); s != "" {
						r.Fail("concurrent answer differs", "caller%d: %s: %s", i, o.name, s)
					}
				}
			}
		}
	}
}

// ---- C09: the encoder refuses what cannot be carried

// stray: a varbind of a type without a value has one all the same. It cannot
// be carried; whether that is an error is left open.
func stray(p agentx.Pdu) bool {
	for _, vb := range p.Varbinds {
		switch vb.Tag {
		case 5, 128, 129, 130:
			if vb.Value != nil {
				return true
			}
		}
	}
	return false
}

var hugePart string // 64 MB

// huge tries to send a payload whose size the header cannot tell.
func (r *Run) huge() {
	if hugePart == "" {
		hugePart = string(make([]byte, 1<<26))
	}
	p := agentx.Pdu{Tag: []agentx.PduTag{agentx.TagResponse, agentx.TagNotify, agentx.TagTestSet}[r.C.Choose(3)], Flags: agentx.Flags(16 * r.C.Choose(2)), Params: agentx.NoParams{}}
	if p.Tag == agentx.TagResponse {
		p.Params = agentx.ResponseParams{}
	}
	for i := 0; i < 32; i++ {
		p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: []uint32{1, 3, uint32(i)}, Tag: asn.TagOctetString, Value: hugePart})
	}
	r.Fault("misuse: payload of more than 2 GB")
	frame, ok := r.encode(p)
	r.Checked()
	if ok {
		h, _ := r.header(frame[:20:20])
		r.Fail("inexpressible PDU encoded", "%d bytes of payload were encoded, the header says %d", len(frame)-20, h.PayloadSize)
	}
}

func setupC09(r *Run) func() {
	nl := 1 + r.C.Choose(2)
	huge := r.C.Choose(4000) == 3999
	misuses := 0
	type lk struct {
		*link
		got int
	}
	var links []*lk
	for i := 0; i < nl; i++ {
		l := &lk{link: &link{r: r}}
		links = append(links, l)
		var pdus []agentx.Pdu
		var kinds []string
		for n := 2 + r.C.Choose(6); n > 0; n-- {
			p := r.G.Pdu()
			kind := ""
			if r.C.Choose(3) != 0 {
				kind = r.G.Misuse(&p)
				if r.C.Choose(8) == 7 {
					kind = r.G.Misuse(&p)
				}
				misuses++
			}
			pdus = append(pdus, p)
			kinds = append(kinds, kind)
		}
		useDbg := r.C.Choose(4) == 3
		r.S.Spawn(fmt.Sprintf("sender%d", i), func() {
			defer l.finish()
			log := r.newLog()
			for j, p := range pdus {
				r.pause()
				if huge && j == 1 {
					r.huge()
				}
				if kinds[j] != "" {
					r.Fault("misuse: " + kinds[j])
				}
				var frame []byte
				var ok bool
				if useDbg {
					frame, ok = r.encodeDbg(ref.Dup(p), log)
				} else {
					frame, ok = r.encode(ref.Dup(p))
				}
				_, _, can := ref.Encode(p, ref.Opt{})
				r.Checked()
				r.Probe(fmt.Sprintf("expressible %v, encoded %v", can, ok))
				if ok && !can {
					r.Fail("inexpressible PDU encoded", "%s (%s) was encoded as %s", describe(p), kinds[j], hexs(frame))
				}
				if !ok && can && !stray(p) {
					r.Fail("valid PDU refused", "%s refused", describe(p))
				}
				r.S.Observe("encode %v", ok)
				if ok {
					l.send(frameRec{pdu: ref.Sent(p), kind: kinds[j]}, frame)
				}
			}
		})
		r.S.Spawn(fmt.Sprintf("receiver%d", i), func() {
			for ci := 0; ; ci++ {
				k := l.accept(ci)
				if k == nil {
					return
				}
				for {
					h := make([]byte, 20)
					if n, full := k.ReadFull(h); !full {
						if n > 0 {
							r.Fail("stream out of step", "%d bytes left over", n)
						}
						break
					}
					pdu, ok := r.header(h)
					if !ok || pdu.PayloadSize > maxPayload {
						r.Fail("encoded PDU refused by the receiver", "header %x of %s", h, describe(l.sent[min(l.got, len(l.sent)-1)].pdu))
					}
					d := make([]byte, pdu.PayloadSize)
					if _, full := k.ReadFull(d); !full {
						r.Fail("stream out of step", "frame cut short")
					}
					want := l.sent[l.got]
					if !r.payload(&pdu, d) {
						r.Fail("encoded PDU refused by the receiver", "%s (%s): %x %s", describe(want.pdu), want.kind, h, hexs(d))
					}
					if s := ref.Diff(want.pdu, pdu); s != "" {
						r.Fail("encoded PDU arrived changed", "%s (%s): %s", describe(want.pdu), want.kind, s)
					}
					q, v, why := ref.DecodeHeader(h)
					if v == ref.Accept {
						v, why = ref.DecodePayload(&q, d)
					}
					if v == ref.Reject {
						r.Fail("encoded PDU is malformed", "%s (%s): %s", describe(want.pdu), want.kind, why)
					}
					r.Checked()
					l.got++
				}
			}
		})
	}
	r.trivial = misuses == 0
	return func() {
		for _, l := range links {
			if l.got != len(l.sent) {
				r.Fail("PDU lost", "%d of %d PDUs received", l.got, len(l.sent))
			}
		}
	}
}
