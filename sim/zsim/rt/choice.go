package rt

// Every nondeterministic decision of a run is drawn from one of these streams.
// A recorded run can be replayed, and shrunk, by feeding the numbers back; a
// replay that has used up its numbers gets zeros, and zero always is the benign
// choice (no fault, keep running the same task, the simplest operation).

type StreamID int

const (
	WORK  StreamID = iota // what the scenario does
	NET                   // delays and faults of network, storage, sockets
	SCHED                 // which task runs, which ready select case is taken
	NStreams
)

var StreamNames = [NStreams]string{"work", "net", "sched"}

type Rng struct{ s uint64 }

func NewRng(seed uint64, salt string) *Rng {
	h := seed*0x9E3779B97F4A7C15 + 0x1234567
	for i := 0; i < len(salt); i++ {
		h = (h ^ uint64(salt[i])) * 0x100000001b3
	}
	r := &Rng{h}
	r.Next()
	r.Next()
	return r
}

func (r *Rng) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int { return int(r.Next() % uint64(n)) }

type Stream struct {
	rng    *Rng
	replay []uint32
	isRep  bool
	pos    int
	Rec    []uint32
}

func (st *Stream) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if st.isRep {
		if st.pos < len(st.replay) {
			v = st.replay[st.pos] % uint32(n)
		}
		st.pos++
	} else {
		v = uint32(st.rng.Next() % uint64(n))
	}
	st.Rec = append(st.Rec, v)
	return int(v)
}
