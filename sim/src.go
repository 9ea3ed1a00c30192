package main

// Every choice of a run (workload, schedule, chunking, fault kind and place)
// is drawn from one Src. A run is a pure function of the drawn numbers, so the
// list of numbers is the replay file, and making the list shorter or smaller
// is how failures are minimised: every generator maps 0 to its simplest case.

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}

func (r *rng) fill(b []byte) {
	i := 0
	for ; i+8 <= len(b); i += 8 {
		v := r.next()
		b[i] = byte(v)
		b[i+1] = byte(v >> 8)
		b[i+2] = byte(v >> 16)
		b[i+3] = byte(v >> 24)
		b[i+4] = byte(v >> 32)
		b[i+5] = byte(v >> 40)
		b[i+6] = byte(v >> 48)
		b[i+7] = byte(v >> 56)
	}
	if i < len(b) {
		v := r.next()
		for ; i < len(b); i++ {
			b[i] = byte(v)
			v >>= 8
		}
	}
}

func mixSeed(seed uint64, name string, idx uint64) uint64 {
	r := rng{s: seed ^ 0xA0761D6478BD642F}
	h := r.next()
	for _, c := range []byte(name) {
		h = (h ^ uint64(c)) * 0x100000001B3
	}
	r = rng{s: h ^ (idx * 0x9E3779B97F4A7C15)}
	r.next()
	return r.next()
}

// Src is the choice source.
type Src struct {
	r      rng
	replay bool
	in     []uint64
	pos    int
	rec    []uint64
}

func newSrc(seed uint64) *Src { return &Src{r: rng{s: seed}} }

func replaySrc(in []uint64) *Src { return &Src{replay: true, in: in} }

// U draws a number in [0,n).
func (s *Src) U(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if s.replay {
		if s.pos < len(s.in) {
			v = s.in[s.pos] % n
		}
		s.pos++
	} else {
		v = s.r.next() % n
	}
	s.rec = append(s.rec, v)
	return v
}

// N draws an int in [0,n).
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.U(uint64(n)))
}

// R draws an int in [lo,hi].
func (s *Src) R(lo, hi int) int { return lo + s.N(hi-lo+1) }

// P is true with probability num/den; 0 maps to false.
func (s *Src) P(num, den int) bool { return s.N(den) >= den-num }

// Sub returns an unrecorded generator for bulk data, seeded by one draw.
func (s *Src) Sub() *rng { return &rng{s: s.U(1<<32)*0x9E3779B97F4A7C15 + 1} }

// W draws an index with the given weights (first = simplest).
func (s *Src) W(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	v := s.N(t)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}
