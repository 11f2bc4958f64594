//go:build go1.27

package rt

// Tape is one recorded stream of decisions. While generating, values come
// from a PRNG and are recorded; while replaying they are read back, and a
// value past the end is 0. Everywhere 0 is the simplest choice, so that
// truncating or zeroing a tape simplifies the run.
type Tape struct {
	Vals   []uint32
	pos    int
	replay bool
	state  uint64
}

const (
	TConf  = iota // configuration, policies, swarm choices
	TWork         // workload: operations and their arguments
	TSched        // scheduling
	TFault        // faults
	TIO           // fragmentation of I/O
	TMap          // map iteration order
	NTapes
)

var TapeNames = [NTapes]string{"config", "workload", "schedule", "faults", "io", "maporder"}

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (t *Tape) next() uint64 {
	t.state += 0x9e3779b97f4a7c15
	x := t.state
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (t *Tape) put(v uint32) uint32 {
	t.Vals = append(t.Vals, v)
	t.pos++
	return v
}

func (t *Tape) get() uint32 {
	p := t.pos
	t.pos++
	if p < len(t.Vals) {
		return t.Vals[p]
	}
	return 0
}

// Used tells how many values were drawn.
func (t *Tape) Used() int { return t.pos }

// N draws from [0,n).
func (t *Tape) N(n int) int {
	if n <= 1 {
		return 0
	}
	if t.replay {
		return int(t.get() % uint32(n))
	}
	return int(t.put(uint32(t.next() % uint64(n))))
}

// Range draws from [lo,hi]; lo is simplest.
func (t *Tape) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + t.N(hi-lo+1)
}

// Chance is true with probability num/den; false is simplest.
func (t *Tape) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	if t.replay {
		return t.get()&1 == 1
	}
	if t.next()%uint64(den) < uint64(num) {
		return t.put(1) == 1
	}
	return t.put(0) == 1
}

// Weighted draws an index with the given weights; 0 is simplest.
func (t *Tape) Weighted(w ...int) int {
	if t.replay {
		return int(t.get() % uint32(len(w)))
	}
	sum := 0
	for _, x := range w {
		sum += x
	}
	r := int(t.next() % uint64(sum))
	for i, x := range w {
		if r < x {
			return int(t.put(uint32(i)))
		}
		r -= x
	}
	return int(t.put(0))
}

// Skewed draws from [0,n) preferring small values.
func (t *Tape) Skewed(n int) int {
	if n <= 1 {
		return 0
	}
	if t.replay {
		return int(t.get() % uint32(n))
	}
	bits := 0
	for m := n; m > 0; m >>= 1 {
		bits++
	}
	b := int(t.next() % uint64(bits+1))
	v := t.next() & (1<<uint(b) - 1)
	return int(t.put(uint32(v % uint64(n))))
}

// Raw draws any 32-bit value.
func (t *Tape) Raw() uint32 {
	if t.replay {
		return t.get()
	}
	return t.put(uint32(t.next()))
}

type Tapes [NTapes]Tape

func NewTapes(seed uint64) *Tapes {
	var t Tapes
	for i := range t {
		t[i].state = mix64(seed*NTapes + uint64(i) + 0x5eed)
	}
	return &t
}

func ReplayTapes(vals [][]uint32) *Tapes {
	var t Tapes
	for i := range t {
		t[i].replay = true
		if i < len(vals) {
			t[i].Vals = vals[i]
		}
	}
	return &t
}

// Copy returns the recorded values actually used by a run.
func (t *Tapes) Copy() [][]uint32 {
	out := make([][]uint32, NTapes)
	for i := range t {
		n := t[i].pos
		if n > len(t[i].Vals) {
			n = len(t[i].Vals)
		}
		out[i] = append([]uint32(nil), t[i].Vals[:n]...)
		for len(out[i]) > 0 && out[i][len(out[i])-1] == 0 {
			out[i] = out[i][:len(out[i])-1]
		}
	}
	return out
}
