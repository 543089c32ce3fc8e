// Package wire is the simulated network: byte streams with segmentation,
// delay, short reads, stalls and resets, and the damage done to frames.
package wire

import (
	"encoding/binary"

	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

type seg struct {
	data []byte
	at   int64
}

// Conn is one direction of a simulated stream connection.
type Conn struct {
	s      *rt.Sim
	count  func(string)
	segs   []seg
	last   int64
	closed bool // by the writer: EOF after what is in flight
	reset  bool // torn down: what is in flight is lost

	chop     int
	delay    int
	shortRd  int
	ZeroCopy bool // hold on to the written slice until it is delivered
}

// NewConn draws the characteristics of a connection.
func NewConn(s *rt.Sim, count func(string)) *Conn {
	c := s.C
	k := &Conn{s: s, count: count}
	k.chop = c.Choose(5)
	k.delay = []int{0, 0, 20, 500, 20000}[c.Choose(5)]
	k.shortRd = c.Choose(3)
	k.ZeroCopy = c.Choose(2) == 1
	return k
}

func (k *Conn) push(data []byte) {
	d := int64(0)
	if k.delay > 0 {
		d = int64(k.s.C.Choose(k.delay))
		if k.s.C.Chance(1, 24) {
			d *= 100
			k.count("stall")
		}
	}
	at := k.s.Now() + d
	if at < k.last {
		at = k.last // a stream keeps its order
	}
	k.last = at
	k.segs = append(k.segs, seg{data, at})
	if d > 0 {
		k.count("delay")
	}
}

// Write puts data in flight.
func (k *Conn) Write(data []byte) {
	if k.reset || k.closed {
		return
	}
	if !k.ZeroCopy {
		data = append([]byte{}, data...)
	}
	switch k.chop {
	case 0, 1:
		k.push(data)
		return
	case 2: // a few large segments
		for n := k.s.C.Choose(3); n > 0 && len(data) > 1; n-- {
			i := 1 + k.s.C.Choose(len(data)-1)
			k.push(data[:i:i])
			data = data[i:]
			k.count("segmentation")
		}
	case 3: // small segments
		for n := 0; n < 24 && len(data) > 1; n++ {
			i := 1 + k.s.C.Choose(min(len(data)-1, 40))
			k.push(data[:i:i])
			data = data[i:]
			k.count("segmentation")
		}
	case 4: // cut at the header
		for n := 1; n < 2 && len(data) > 20; n++ {
			i := 18 + k.s.C.Choose(min(len(data)-18, 5))
			k.push(data[:i:i])
			data = data[i:]
			k.count("segmentation")
		}
	}
	if len(data) > 0 {
		k.push(data)
	}
}

// Close ends the stream after what is in flight.
func (k *Conn) Close() { k.closed = true }

// Reset tears the connection down: what is in flight is lost.
func (k *Conn) Reset() {
	if !k.reset {
		k.reset = true
		k.segs = nil
		k.count("reset")
	}
}

// Dead tells the writer that the peer is gone.
func (k *Conn) Dead() bool { return k.reset }

// Ready implements rt.Waiter: something to read, or the end; with mode 1 also
// something in flight (the reader then waits for its arrival).
func (k *Conn) Ready(mode int) bool {
	if k.reset {
		return true
	}
	if len(k.segs) == 0 {
		return k.closed
	}
	if mode == 1 {
		return true
	}
	return k.segs[0].at <= k.s.Now()
}

// Read reads at least one byte; 0 means the end of the stream.
func (k *Conn) Read(p []byte) int {
	if len(p) == 0 {
		return 0
	}
	for !k.Ready(0) {
		if len(k.segs) > 0 {
			k.s.BlockUntil(k, 0, k.segs[0].at)
		} else {
			k.s.BlockUntil(k, 1, int64(1)<<62)
		}
	}
	if k.reset || len(k.segs) == 0 {
		return 0
	}
	want := len(p)
	if k.shortRd > 0 && want > 1 && k.s.C.Chance(k.shortRd, 4) {
		want = 1 + k.s.C.Choose(want-1)
		k.count("short read")
	}
	n := 0
	for n < want && len(k.segs) > 0 && k.segs[0].at <= k.s.Now() {
		m := copy(p[n:want], k.segs[0].data)
		n += m
		if m == len(k.segs[0].data) {
			k.segs = k.segs[1:]
		} else {
			k.segs[0].data = k.segs[0].data[m:]
		}
	}
	return n
}

// ReadFull reads until p is full or the stream ends.
func (k *Conn) ReadFull(p []byte) (n int, ok bool) {
	for n < len(p) {
		m := k.Read(p[n:])
		if m == 0 {
			return n, false
		}
		n += m
	}
	return n, true
}

// Buf is a receive buffer that is reused: slices handed out have spare
// capacity, overlap from message to message, and hold stale bytes.
type Buf struct {
	mem  []byte
	off  int
	mode int
	c    *rt.Choices
}

// NewBuf draws the habits of a receiver.
func NewBuf(c *rt.Choices) *Buf {
	return &Buf{c: c, mode: c.Choose(3)}
}

// Get returns n bytes.
func (b *Buf) Get(n int) []byte {
	if b.mode == 0 { // what the documentation does
		return make([]byte, n)
	}
	if len(b.mem) < n+64 {
		b.mem = make([]byte, 2*n+256)
		for i := range b.mem {
			b.mem[i] = 0xEE
		}
		b.off = 0
	}
	if b.mode == 2 { // ring
		if b.off+n > len(b.mem)-32 {
			b.off = 0
		}
		x := b.mem[b.off : b.off+n]
		b.off += n
		return x
	}
	return b.mem[:n]
}

// Scribble overwrites the memory that was handed out, if it is reused.
func (b *Buf) Scribble(x []byte, v byte) {
	for i := range x {
		x[i] = v + byte(i*7)
	}
}

// FixLen sets the payload length field to what follows the header.
func FixLen(f []byte) {
	if len(f) < 20 {
		return
	}
	if f[2]&0x10 != 0 {
		binary.BigEndian.PutUint32(f[16:], uint32(len(f)-20))
	} else {
		binary.LittleEndian.PutUint32(f[16:], uint32(len(f)-20))
	}
}

var setBytes = []byte{0, 1, 2, 3, 4, 5, 0x0F, 0x10, 0x30, 0x40, 0x7F, 0x80, 0x81, 0xFE, 0xFF}
var setWords = []uint32{0, 1, 2, 3, 4, 5, 8, 0xFF, 0x100, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFC, 0x7FFFFFFC,
	0x00010000, 0x01000000, 0x40000000, 0x10000000, 0x00100000}

// pos picks a position, aimed at the role first.
func pos(c *rt.Choices, f []byte, roles []ref.Role, payload bool) (int, string) {
	lo := 0
	if payload {
		lo = 20
	}
	if len(f) <= lo {
		return -1, ""
	}
	if len(roles) == len(f) && c.Choose(3) != 0 {
		want := ref.Role(c.Choose(int(ref.NRoles)))
		var at []int
		for i := lo; i < len(f); i++ {
			if roles[i] == want {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			return at[c.Choose(len(at))], want.String()
		}
	}
	i := lo + c.Choose(len(f)-lo)
	if len(roles) == len(f) {
		return i, roles[i].String()
	}
	return i, "any"
}

// Damage returns a damaged copy of a frame and the kind of damage. roles may
// be nil. other is another frame (for splices), possibly nil. With
// keepHeader only the payload is damaged, and the length field is right.
func Damage(c *rt.Choices, f []byte, roles []ref.Role, other []byte, keepHeader bool) ([]byte, string) {
	g := append([]byte{}, f...)
	kind := ""
	if len(g) < 20 {
		keepHeader = false
	}
	fix := func() {
		if len(g) >= 20 && (keepHeader || c.Choose(4) != 3) {
			for (len(g)-20)%4 != 0 {
				if c.Choose(2) == 0 {
					g = append(g, 0)
				} else {
					g = g[:len(g)-1]
				}
			}
			FixLen(g)
		}
	}
	switch c.Choose(13) {
	case 0:
		i, role := pos(c, g, roles, keepHeader)
		if i < 0 {
			g = append(g[:len(g):len(g)], 0, 0, 0, 0)
			FixLen(g)
			return g, "extra bytes"
		}
		g[i] ^= 1 << c.Choose(8)
		kind = "bit flip in " + role
	case 1:
		i, role := pos(c, g, roles, keepHeader)
		if i < 0 {
			break
		}
		if k := c.Choose(len(setBytes) + 3); k < len(setBytes) {
			g[i] = setBytes[k]
		} else { // a number that the sources mention
			g[i] = byte(c.Num())
		}
		kind = "byte set in " + role
	case 2:
		i, role := pos(c, g, roles, keepHeader)
		if i < 0 {
			break
		}
		if c.Choose(2) == 0 {
			g[i]++
		} else {
			g[i]--
		}
		kind = "byte off by one in " + role
	case 3: // truncation
		if len(g) > 20 {
			n := 20 + c.Choose(len(g)-20)
			if c.Choose(3) != 0 {
				n = 20 + (n-20)/4*4
			}
			g = g[:n]
			fix()
		} else if !keepHeader {
			g = g[:c.Choose(len(g)+1)]
		}
		kind = "truncation"
	case 4: // extension
		n := 4 * (1 + c.Choose(6))
		if c.Choose(4) == 3 {
			n += c.Choose(4)
		}
		s := rt.NewStream(c.Word())
		z := c.Choose(3)
		for i := 0; i < n; i++ {
			switch z {
			case 0:
				g = append(g, 0)
			case 1:
				g = append(g, byte(s.Next()))
			default:
				g = append(g, setBytes[s.Next()%uint64(len(setBytes))])
			}
		}
		fix()
		kind = "extra bytes"
	case 5, 6: // a word overwritten
		i, role := pos(c, g, roles, keepHeader)
		if i < 0 {
			break
		}
		i = i / 4 * 4
		if i+4 > len(g) {
			break
		}
		var w uint32
		if k := c.Choose(len(setWords) + 2); k < len(setWords) {
			w = setWords[k]
		} else { // a number that the sources mention
			w = uint32(c.Num())
		}
		if g[2]&0x10 != 0 {
			binary.BigEndian.PutUint32(g[i:], w)
		} else {
			binary.LittleEndian.PutUint32(g[i:], w)
		}
		kind = "word overwritten in " + role
	case 7: // a word deleted
		if len(g) >= 24 {
			i := 20 + 4*c.Choose((len(g)-20)/4)
			g = append(g[:i:i], g[i+4:]...)
			fix()
		}
		kind = "word lost"
	case 8: // a word doubled
		if len(g) >= 24 {
			i := 20 + 4*c.Choose((len(g)-20)/4)
			g = append(append(append([]byte{}, g[:i+4]...), g[i:i+4]...), g[i+4:]...)
			fix()
		}
		kind = "word doubled"
	case 9: // splice
		if len(other) > 20 && len(g) > 20 {
			i := 20 + 4*c.Choose((len(g)-20)/4+1)
			j := 20 + 4*c.Choose((len(other)-20)/4+1)
			g = append(g[:min(i, len(g)):min(i, len(g))], other[min(j, len(other)):]...)
			fix()
		}
		kind = "splice"
	case 10: // byte order or type changed under the payload
		if keepHeader {
			if len(g) > 20 {
				s := rt.NewStream(c.Word())
				for i := 20; i < len(g); i++ {
					g[i] = byte(s.Next())
				}
			}
			kind = "payload replaced by noise"
			break
		}
		if len(g) >= 20 {
			if c.Choose(2) == 0 {
				g[2] ^= 0x10
			} else {
				g[1] = byte(1 + c.Choose(19))
				if c.Choose(2) == 0 && ref.Known(g[1]) {
					g[2] &= ref.AllowedFlags(g[1])
				}
			}
			fix()
		}
		kind = "header field changed under the payload"
	case 11: // stale tail, as after a short read into a reused buffer
		if len(g) > 24 && len(other) > 20 {
			i := 20 + c.Choose(len(g)-20)
			for k := i; k < len(g); k++ {
				if k < len(other) {
					g[k] = other[k]
				}
			}
		}
		kind = "stale tail"
	case 12: // several at once
		if len(g) > 20 {
			n := 1 + c.Choose(4)
			for ; n > 0; n-- {
				i, _ := pos(c, g, roles, keepHeader)
				g[i] = setBytes[c.Choose(len(setBytes))]
			}
		}
		kind = "several bytes set"
	}
	if kind == "" {
		kind = "none"
	}
	return g, kind
}
