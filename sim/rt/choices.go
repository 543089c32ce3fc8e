package rt

// Choices is the only source of nondeterminism of a simulated run: the
// workload, the schedule, the delays and the faults are all drawn from it. It
// is either generated from a seed or replayed from a recorded list; once a
// recorded list is used up every further choice is 0, which is by convention
// the simplest one (no fault, no preemption, smallest value).
type Choices struct {
	pre    []uint32
	pos    int
	state  uint64
	replay bool
	rec    []uint32
}

// NewSeeded returns a generator for the given seed.
func NewSeeded(seed uint64) *Choices {
	return &Choices{state: seed}
}

// NewReplay returns a generator that replays rec.
func NewReplay(rec []uint32) *Choices {
	return &Choices{pre: rec, replay: true}
}

// Mix hashes its arguments into one seed.
func Mix(vals ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, v := range vals {
		h ^= v
		h = splitmix(&h)
	}
	return h
}

// HashString folds a string into a seed component.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func splitmix(state *uint64) uint64 {
	*state += 0x9E3779B97F4A7C15
	z := *state
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Choose returns a value in [0, n).
func (c *Choices) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	switch {
	case c.pos < len(c.pre):
		v = c.pre[c.pos] % uint32(n)
	case c.replay:
		v = 0
	default:
		v = uint32(splitmix(&c.state) % uint64(n))
	}
	c.pos++
	c.rec = append(c.rec, v)
	return int(v)
}

// Word returns an arbitrary 31-bit word (0 is the simplest one).
func (c *Choices) Word() uint32 { return uint32(c.Choose(1 << 31)) }

// Chance is true num times out of den.
func (c *Choices) Chance(num, den int) bool {
	return c.Choose(den) >= den-num
}

// Rec returns the choices made so far.
func (c *Choices) Rec() []uint32 { return c.rec }

// Stream expands a word into a deterministic byte stream generator.
type Stream struct{ s uint64 }

// NewStream returns a stream for the given word.
func NewStream(w uint32) *Stream { return &Stream{Mix(uint64(w))} }

// Next returns the next 64 bits.
func (s *Stream) Next() uint64 { return splitmix(&s.s) }
