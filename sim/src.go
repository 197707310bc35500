package main

import "os"

// Src is the single source of every choice of a run. In search mode the
// choices come from a seeded generator and are recorded; in replay mode they
// come from the record, and choices past its end are 0, the simplest value.
type Src struct {
	rec    []uint32
	replay []uint32
	isRep  bool
	pos    int
	s      uint64
	tee    *os.File // records choices before they are used, if set
}

func newSrc(seed uint64) *Src         { return &Src{s: seed} }
func replaySrc(choices []uint32) *Src { return &Src{replay: choices, isRep: true} }
func mix(a, b uint64) uint64          { return splitmix(splitmix(a) ^ b*0x9e3779b97f4a7c15) }
func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (s *Src) raw() uint32 {
	var v uint32
	if s.isRep {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
		}
	} else {
		s.s += 0x9e3779b97f4a7c15
		x := s.s
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
		x = (x ^ (x >> 27)) * 0x94d049bb133111eb
		v = uint32((x ^ (x >> 31)) >> 32)
	}
	s.pos++
	return v
}

// N draws a value in [0, n).
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	v := s.raw()
	if uint64(n) <= 1<<32 {
		v = uint32(uint64(v) % uint64(n))
	}
	s.rec = append(s.rec, v)
	if s.tee != nil {
		s.tee.Write([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)})
	}
	return int(v)
}

// Bool is true with probability num/den (false is the simplest value).
func (s *Src) Bool(num, den int) bool { return s.N(den) >= den-num }

// Bits draws an n-bit value, n <= 32, biased towards small and extreme ones.
func (s *Src) Bits(n int) int {
	if n == 0 {
		return 0
	}
	if n == 1 {
		return s.N(2)
	}
	if n <= 3 {
		return s.N(1 << n)
	}
	switch s.N(5) {
	case 0:
		return s.N(4)
	case 1:
		return (1 << n) - 1 - s.N(3)
	case 2:
		k := 1 + s.N(n)
		return s.N(1<<k) & (1<<n - 1)
	default:
		return s.N(1 << n)
	}
}

// Range draws in [lo, hi].
func (s *Src) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + s.N(hi-lo+1)
}
