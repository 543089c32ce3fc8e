package rt

import (
	"reflect"
	"time"
	"unsafe"
	"weak"
)

// Channels of the code under test are real ones, but nobody ever waits inside
// them: a task that would wait is parked until the operation can go on.
// An unbuffered channel is made with room for one value, and a sender then
// waits until its value was taken.

type chanInfo struct {
	ptr    uintptr
	chanel weak.Pointer[byte] // does not keep it in memory
	unbuf  bool
	closed bool
	sent   int64
	taken  int64
	addr   int32
}

// gone tells whether the channel is no more: another one may be in its place.
//
//go:norace
func (i *chanInfo) gone() bool { return i.chanel.Value() == nil }

// chanTab is a hash table that the race detector does not see.
type chanTab struct {
	slots []*chanInfo
	n     int
}

//go:norace
func (t *chanTab) slot(p uintptr) int {
	k := int((uint64(p) * 0x9E3779B97F4A7C15 >> 20) % uint64(len(t.slots)))
	for t.slots[k] != nil && t.slots[k].ptr != p {
		if k++; k == len(t.slots) {
			k = 0
		}
	}
	return k
}

//go:norace
func (t *chanTab) put(i *chanInfo) {
	if 2*t.n >= len(t.slots) {
		old := t.slots
		live := 0
		for _, x := range old {
			if x != nil && !x.gone() {
				live++
			}
		}
		t.slots, t.n = make([]*chanInfo, 4*live+16), 0
		for _, x := range old {
			if x != nil && !x.gone() {
				t.slots[t.slot(x.ptr)] = x
				t.n++
			}
		}
	}
	k := t.slot(i.ptr)
	if t.slots[k] == nil {
		t.n++
	}
	t.slots[k] = i
}

//go:norace
func (s *Sim) chanInfo(p uintptr) *chanInfo {
	if s.chans.n == 0 {
		return nil
	}
	i := s.chans.slots[s.chans.slot(p)]
	if i == nil || i.gone() {
		return nil
	}
	return i
}

//go:norace
func (s *Sim) addChan(p unsafe.Pointer) *chanInfo {
	if i := s.chanInfo(uintptr(p)); i != nil {
		return i
	}
	i := &chanInfo{ptr: uintptr(p), chanel: weak.Make((*byte)(p))}
	s.chans.put(i)
	return i
}

func ptr(c interface{}) uintptr { return reflect.ValueOf(c).Pointer() }

// MakeChan makes an unbuffered channel.
//
//go:norace
func MakeChan[T any](plain func() chan T, room func() chan T) chan T {
	if !Active() {
		return plain()
	}
	c := room()
	active.addChan(reflect.ValueOf(c).UnsafePointer()).setUnbuf()
	return c
}

//go:norace
func (i *chanInfo) setUnbuf() { i.unbuf = true }

//go:norace
func (i *chanInfo) setClosed() { i.closed = true }

type recvWait[T any] struct {
	c <-chan T
	i *chanInfo
	p uintptr
	s *Sim
}

//go:norace
func (w *recvWait[T]) Ready(int) bool {
	if len(w.c) > 0 {
		return true
	}
	i := w.s.chanInfo(w.p)
	return i != nil && i.closed
}

type sendWait[T any] struct {
	c chan<- T
	p uintptr
	s *Sim
}

//go:norace
func (w *sendWait[T]) Ready(int) bool {
	if len(w.c) < cap(w.c) {
		return true
	}
	i := w.s.chanInfo(w.p)
	return i != nil && i.closed
}

type takenWait struct {
	i *chanInfo
	n int64
}

//go:norace
func (w *takenWait) Ready(int) bool { return w.i.taken >= w.n }

// Recv is a receive operation of the code under test.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is a receive operation of the code under test.
//
//go:norace
func Recv2[T any](c <-chan T) (T, bool) {
	if Active() {
		Y(-1)
		w := &recvWait[T]{c: c, p: ptr(c), s: active}
		for !w.Ready(0) {
			Block(w, 0)
		}
		v, ok := <-c
		if ok {
			active.took(w.p)
		}
		return v, ok
	}
	v, ok := <-c
	return v, ok
}

//go:norace
func (s *Sim) took(p uintptr) {
	if i := s.chanInfo(p); i != nil && i.unbuf {
		i.taken++
		raceReleaseMerge(&i.addr)
	}
}

// SendTo is the send operation of the code under test.
//
//go:norace
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) {
		if !Active() {
			c <- v
			return
		}
		Y(-1)
		w := &sendWait[T]{c: c, p: ptr(c), s: active}
		for !w.Ready(0) {
			Block(w, 0)
		}
		c <- v
		active.sent(w.p)
	}
}

//go:norace
func (s *Sim) sent(p uintptr) {
	if i := s.chanInfo(p); i != nil && i.unbuf {
		i.sent++
		w := &takenWait{i, i.sent}
		for !w.Ready(0) {
			Block(w, 0)
		}
		raceAcquire(&i.addr)
	}
}

// Close closes a channel of the code under test.
//
//go:norace
func Close[T any](c chan<- T) {
	close(c)
	if Active() {
		active.addChan(reflect.ValueOf(c).UnsafePointer()).setClosed()
		Y(-1)
	}
}

// Case is one communication of a select statement without default.
type Case struct{ w Waiter }

//go:norace
func CanRecv[T any](c <-chan T) Case { return Case{&recvWait[T]{c: c, p: ptr(c), s: active}} }

//go:norace
func CanSend[T any](c chan<- T) Case { return Case{&sendWait[T]{c: c, p: ptr(c), s: active}} }

type selectWait []Case

//go:norace
func (w selectWait) Ready(int) bool {
	for _, c := range w {
		if c.w.Ready(0) {
			return true
		}
	}
	return false
}

// Select waits until one of the communications can go on.
//
//go:norace
func Select(cases ...Case) {
	if !Active() {
		return
	}
	Y(-1)
	w := selectWait(cases)
	for !w.Ready(0) {
		Block(w, 0)
	}
}

// Took follows a receive by select.
//
//go:norace
func Took[T any](c <-chan T) {
	if Active() {
		active.took(ptr(c))
	}
}

// TimeTimer stands for time.Timer.
type TimeTimer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	s    *Sim
	gen  int
	live bool
}

//go:norace
func (t *TimeTimer) start(d time.Duration) {
	t.gen++
	t.live = true
	gen, s := t.gen, t.s
	u := int64(d / time.Microsecond)
	s.Spawn("go", func() { t.fire(gen, u) })
}

//go:norace
func (t *TimeTimer) fire(gen int, u int64) {
	t.s.Sleep(u)
	if !t.live || t.gen != gen {
		return
	}
	t.live = false
	if t.f != nil {
		t.f()
		return
	}
	select {
	case t.c <- TimeNow():
	default:
	}
}

// Stop stops the timer.
//
//go:norace
func (t *TimeTimer) Stop() bool {
	was := t.live
	t.live = false
	return was
}

// Reset starts the timer again.
//
//go:norace
func (t *TimeTimer) Reset(d time.Duration) bool {
	was := t.live
	t.start(d)
	return was
}

//go:norace
func newTimer(d time.Duration, f func()) *TimeTimer {
	if !Active() {
		panic("timer outside the simulation")
	}
	t := &TimeTimer{c: make(chan time.Time, 1), f: f, s: active}
	t.C = t.c
	t.start(d)
	return t
}

// TimeAfterFunc, TimeNewTimer and TimeAfter stand for those of package time.
func TimeAfterFunc(d time.Duration, f func()) *TimeTimer { return newTimer(d, f) }

func TimeNewTimer(d time.Duration) *TimeTimer { return newTimer(d, nil) }

func TimeAfter(d time.Duration) <-chan time.Time { return newTimer(d, nil).C }
