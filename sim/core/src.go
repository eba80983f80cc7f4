//go:build go1.23

// Package core is the simulator: a file system with volatile and durable
// state, processes that run one at a time, a clock, and one stream of choices
// from which every schedule, delay and fault is taken.
package core

// Src is the stream of choices of a run.  A run is a function of its stream:
// a seed makes one, the record of another run replays it.  Zero is always the
// plainest choice (no fault, no switch, the first alternative), so that a
// stream that is cut short or blanked gives a simpler run.
type Src struct {
	state  uint64
	replay []uint32
	isRep  bool
	Rec    []uint32
	Marks  []int // where the operations begin
}

// Mark tells the minimiser that an operation begins.
func (s *Src) Mark() { s.Marks = append(s.Marks, len(s.Rec)) }

// NewSeed makes the stream of a seed.
func NewSeed(seed uint64) *Src { return &Src{state: seed*0x9e3779b97f4a7c15 + 0x1234567} }

// NewReplay makes a stream out of a record.
func NewReplay(rec []uint32) *Src { return &Src{replay: rec, isRep: true} }

func (s *Src) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	z := s.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Draw returns a number in [0,n).
func (s *Src) Draw(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.isRep {
		if len(s.Rec) < len(s.replay) {
			v = s.replay[len(s.Rec)] % uint32(n)
		}
	} else {
		v = uint32(s.next()>>33) % uint32(n)
	}
	s.Rec = append(s.Rec, v)
	return int(v)
}

// Chance is true num times out of den; a zero in the stream makes it false.
func (s *Src) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	return s.Draw(den) >= den-num
}

// Range returns a number in [lo,hi].
func (s *Src) Range(lo, hi int) int { return lo + s.Draw(hi-lo+1) }

// Pick returns an index of the weights, in proportion to them.
func (s *Src) Pick(weights []int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	v := s.Draw(total)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Mix hashes two numbers into one.
func Mix(a, b uint64) uint64 {
	z := a ^ (b+0x9e3779b97f4a7c15)*0xff51afd7ed558ccd
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
