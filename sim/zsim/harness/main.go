package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/jart/gosip/zsim/rt"
	"github.com/jart/gosip/zsim/scrand"
)

// Profile is a family of scenarios.
type Profile struct {
	Name string
	Run  func() []string // executes a scenario; returns states visited
}

var profiles = map[string]*Profile{}

func profile(name string, run func() []string) { profiles[name] = &Profile{name, run} }

// Streams are the recorded choices of a run.
type Streams [rt.NStreams][]uint32

// Result of one run.
type Result struct {
	Index   int            `json:"i"`
	Prop    string         `json:"p"`
	Profile string         `json:"pr"`
	Seed    uint64         `json:"s"`
	Viols   []rt.Violation `json:"v,omitempty"`
	Harness string         `json:"h,omitempty"`
	Stats   map[string]int `json:"st,omitempty"`
	Hash    uint64         `json:"ha"`
	SHash   uint64         `json:"sh"`
	SimNs   int64          `json:"t"`
	Steps   int            `json:"n"`
	States  []string       `json:"ms,omitempty"`
	Ended   string         `json:"e"`
	Rec     *Streams       `json:"rec,omitempty"`
	Trace   []string       `json:"-"`
	Opt     rt.Options     `json:"-"`
}

func schedOptions() {
	s := rt.S
	switch W(5) {
	case 0:
	case 1, 2:
		s.Opt = rt.Options{Switch: 100, Random: true}
	case 3:
		s.Opt = rt.Options{Switch: 300, Preempt: 30, Random: true}
	case 4:
		s.Opt = rt.Options{Switch: 20, Preempt: 5, Random: true}
	}
}

// execute performs one run; all it does follows from its arguments.
func execute(prop, prof string, seed uint64, replay *Streams, verbose bool) *Result {
	var rp *[rt.NStreams][]uint32
	if replay != nil {
		rp = (*[rt.NStreams][]uint32)(replay)
	}
	scrand.Reset()
	flag.VisitAll(func(f *flag.Flag) { f.Value.Set(f.DefValue) })
	s := rt.New(seed, rp)
	s.Verbose = verbose
	crash := []string{"C01"}
	if prop != "" && prop != "C01" {
		crash = append(crash, prop)
	}
	s.OnPanic = func(g *rt.G, val any, stack string) []string { return crash }
	r := &Result{Prop: prop, Profile: prof, Seed: seed}
	p := profiles[prof]
	s.Run(func() {
		schedOptions()
		r.States = p.Run()
	})
	r.Viols, r.Harness, r.Stats = s.Viols, s.Harness, s.Stats
	r.Hash, r.SHash, r.SimNs, r.Steps, r.Ended = s.Hash, s.SHash, s.VNow(), s.Steps, s.Ended
	r.Trace = s.Trace
	rec := Streams(s.Recorded())
	r.Rec = &rec
	r.Opt = s.Opt
	return r
}

// viol is the violation of prop in the result, if any.
func (r *Result) viol(prop string) *rt.Violation {
	for i := range r.Viols {
		for _, p := range r.Viols[i].Props {
			if p == prop || prop == "" {
				return &r.Viols[i]
			}
		}
	}
	return nil
}

func seedOf(base uint64, prop string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", base, prop, i)
	return h.Sum64()
}

func profileOf(prop string, i int) string {
	l := plan[prop]
	t := 0
	for _, p := range l {
		t += p.weight
	}
	n := i % t
	for _, p := range l {
		if n < p.weight {
			return p.name
		}
		n -= p.weight
	}
	return l[0].name
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property  string     `json:"property"`
	Profile   string     `json:"profile"`
	Seed      uint64     `json:"seed"`
	Key       string     `json:"key"`
	Message   string     `json:"message"`
	Hash      string     `json:"hash"`
	Streams   *Streams   `json:"streams"`
	Choices   int        `json:"choices"`
	Minimised bool       `json:"minimised"`
	Trace     []string   `json:"trace"`
	Before    *span      `json:"before,omitempty"` // runs to do first in the same process
	Sched     rt.Options `json:"sched"`
}

func arg(name, def string) string {
	for i, a := range os.Args {
		if a == "-"+name && i+1 < len(os.Args) {
			return os.Args[i+1]
		}
	}
	return def
}

func has(name string) bool {
	for _, a := range os.Args {
		if a == "-"+name {
			return true
		}
	}
	return false
}

func argI(name string, def int) int {
	n, err := strconv.Atoi(arg(name, ""))
	if err != nil {
		return def
	}
	return n
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|replay|run ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check())
	case "worker":
		worker()
	case "one":
		one()
	case "replay":
		os.Exit(replayCmd())
	case "run":
		runCmd()
	default:
		os.Exit(2)
	}
}

// worker runs every step-th seed from a start, printing a result per line.
func worker() {
	prop := arg("prop", "")
	base, _ := strconv.ParseUint(arg("seed", "1"), 10, 64)
	from, step, count := argI("from", 0), argI("step", 1), argI("count", 1)
	till := time.Now().Add(time.Duration(argI("secs", 600)) * time.Second)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(w)
	for i := from; i < count; i += step {
		if time.Now().After(till) {
			break
		}
		r := execute(prop, profileOf(prop, i), seedOf(base, prop, i), nil, false)
		r.Index = i
		if r.viol(prop) == nil {
			r.Rec = nil
		}
		enc.Encode(r)
		if has("flush") || r.Harness != "" || len(r.Viols) > 0 {
			w.Flush()
		}
	}
	w.Flush()
}

type oneReq struct {
	Prop, Profile string
	Seed          uint64
	Streams       *Streams
	Verbose       bool
	Before        *span
}

// span is a series of runs.
type span struct {
	Base           uint64
	From, Step, To int
}

func (s *span) execute(prop string) {
	if s == nil {
		return
	}
	for i := s.From; i < s.To; i += s.Step {
		execute(prop, profileOf(prop, i), seedOf(s.Base, prop, i), nil, false)
	}
}

type oneRes struct {
	*Result
	Trace []string
	Opt   rt.Options
}

// one serves runs described on stdin.
func one() {
	dec := json.NewDecoder(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	for {
		var q oneReq
		if dec.Decode(&q) != nil {
			return
		}
		q.Before.execute(q.Prop)
		r := execute(q.Prop, q.Profile, q.Seed, q.Streams, q.Verbose)
		enc.Encode(oneRes{r, r.Trace, r.Opt})
	}
}

// fresh performs a run in a process of its own.
func fresh(q oneReq) (*oneRes, error) {
	c := exec.Command(os.Args[0], "one")
	in, _ := json.Marshal(q)
	c.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	if err := runLimited(c, 60*time.Second); err != nil {
		return nil, fmt.Errorf("%v: %s", err, tail(errb.String(), 2000))
	}
	var r oneRes
	if err := json.Unmarshal(out.Bytes(), &r); err != nil {
		return nil, err
	}
	return &r, nil
}

func runLimited(c *exec.Cmd, d time.Duration) error {
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := c.Start(); err != nil {
		return err
	}
	t := time.AfterFunc(d, func() { c.Process.Kill() })
	defer t.Stop()
	return c.Wait()
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// runCmd runs one seed verbosely, for a person to look at.
func runCmd() {
	prop := arg("prop", "")
	seed, _ := strconv.ParseUint(arg("s", "0"), 10, 64)
	prof := arg("profile", "")
	if i := argI("i", -1); i >= 0 {
		base, _ := strconv.ParseUint(arg("seed", "1"), 10, 64)
		seed = seedOf(base, prop, i)
		if prof == "" {
			prof = profileOf(prop, i)
		}
	}
	r := execute(prop, prof, seed, nil, true)
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	fmt.Println("profile", prof, "seed", seed, "ended", r.Ended, "hash", r.Hash, "harness", r.Harness)
	for _, v := range r.Viols {
		fmt.Println(v.Props, v.Key, "\n", v.Msg)
	}
}

func replayCmd() int {
	b, err := os.ReadFile(os.Args[2])
	var f Replay
	if err == nil {
		err = json.Unmarshal(b, &f)
	}
	if err != nil {
		fmt.Println("cannot read replay:", err)
		return 2
	}
	if f.Key == "process-death" {
		_, err := fresh(oneReq{Prop: f.Property, Profile: f.Profile, Seed: f.Seed, Before: f.Before})
		if err == nil {
			fmt.Println("the violation does not occur (any more)")
			return 0
		}
		fmt.Printf("property %s is violated (%s)\n%s\n", f.Property, f.Key, err)
		return 1
	}
	f.Before.execute(f.Property)
	r := execute(f.Property, f.Profile, f.Seed, f.Streams, true)
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	v := r.viol(f.Property)
	if v == nil {
		fmt.Println("the violation does not occur (any more); run ended:", r.Ended, r.Harness)
		return 0
	}
	fmt.Printf("property %s is violated (%s)\n%s\n", f.Property, v.Key, v.Msg)
	if fmt.Sprint(r.Hash) == f.Hash && v.Key == f.Key {
		fmt.Println("identical to the recorded execution, hash", f.Hash)
	} else {
		fmt.Println("differs from the recorded execution (the code has changed?)")
	}
	return 1
}

// server keeps a process for many short runs while minimising.
type server struct {
	c   *exec.Cmd
	enc *json.Encoder
	dec *json.Decoder
}

func newServer() (*server, error) {
	c := exec.Command(os.Args[0], "one")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &server{c, json.NewEncoder(in), json.NewDecoder(bufio.NewReader(out))}, nil
}

func (s *server) do(q oneReq) (*oneRes, error) {
	if err := s.enc.Encode(q); err != nil {
		return nil, err
	}
	t := time.AfterFunc(20*time.Second, func() { s.c.Process.Kill() })
	defer t.Stop()
	var r oneRes
	if err := s.dec.Decode(&r); err != nil {
		return nil, err
	}
	return &r, nil
}

func clone(s *Streams) *Streams {
	var r Streams
	for i := range s {
		r[i] = append([]uint32(nil), s[i]...)
	}
	return &r
}

// minimise shrinks the choices of a failing run while it keeps failing alike.
func minimise(prop string, r *Result, key string, till time.Time) (*Streams, int) {
	sv, err := newServer()
	if err != nil {
		return r.Rec, 0
	}
	defer func() { sv.c.Process.Kill(); sv.c.Wait() }()
	best := clone(r.Rec)
	tries := 0
	fails := func(s *Streams) bool {
		if time.Now().After(till) || sv == nil {
			return false
		}
		tries++
		x, err := sv.do(oneReq{Prop: prop, Profile: r.Profile, Seed: r.Seed, Streams: s})
		if err != nil {
			n, err2 := newServer()
			if err2 != nil {
				return false
			}
			sv.c.Process.Kill()
			sv.c.Wait()
			*sv = *n
			return false
		}
		if v := x.viol(prop); v != nil && v.Key == key && x.Harness == "" {
			best = clone(x.Rec)
			return true
		}
		return false
	}
	for changed := true; changed && time.Now().Before(till); {
		changed = false
		for id := int(rt.NStreams) - 1; id >= 0; id-- {
			// Truncate: what isn't recorded is benign.
			for n := len(best[id]); n > 0; n /= 2 {
				for len(best[id]) >= n {
					c := clone(best)
					c[id] = c[id][:len(c[id])-n]
					before := total(best)
					if !fails(c) || total(best) >= before {
						break
					}
					changed = true
				}
			}
			// Zero ranges, then drop them.
			for n := len(best[id]); n > 0; n /= 2 {
				for i := 0; i+n <= len(best[id]); i += n {
					c := clone(best)
					z := true
					for j := i; j < i+n; j++ {
						if c[id][j] != 0 {
							z = false
						}
						c[id][j] = 0
					}
					before := weightOf(best)
					if !z && fails(c) && weightOf(best) < before {
						changed = true
						continue
					}
					c = clone(best)
					if i+n > len(c[id]) {
						break
					}
					c[id] = append(c[id][:i:i], c[id][i+n:]...)
					before = total(best)
					if n <= 64 && fails(c) && total(best) < before {
						changed = true
					}
				}
				if time.Now().After(till) {
					break
				}
			}
		}
	}
	return best, tries
}

func total(s *Streams) int {
	n := 0
	for i := range s {
		n += len(s[i])
	}
	return n
}

func weightOf(s *Streams) int {
	n := 0
	for i := range s {
		for _, x := range s[i] {
			if x != 0 {
				n++
			}
		}
	}
	return n
}

type agg struct {
	mu      sync.Mutex
	runs    int
	simNs   int64
	steps   int64
	stats   map[string]int
	scheds  map[uint64]bool
	hashes  map[int]uint64
	want    map[int]bool
	known   []string
	warn    []string
	states  map[string]bool
	prof    map[string]int
	ended   map[string]int
	viols   []*Result
	others  map[string]int
	otherAt map[string]int
	harness []string
	samples []string
}

// Known is an entry of known-findings.
type Known struct {
	Property string
	Key      string
	Text     string
}

// knownFindings reads the lines "known: property=<id> key=<key> <what fails>".
func knownFindings(dir string) (r []Known) {
	b, _ := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[1], "key=") {
			r = append(r, Known{f[0], strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return
}

func check() int {
	prop, tier := arg("prop", ""), arg("tier", "quick")
	dir := arg("dir", "/verif")
	pl := plan[prop]
	if pl == nil {
		fmt.Println("no such property:", prop)
		return 2
	}
	base := uint64(1)
	if n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		base = n
	}
	if n, err := strconv.ParseUint(arg("seed", ""), 10, 64); err == nil {
		base = n
	}
	count := budget[prop].quick
	secs := 240
	if tier == "thorough" {
		count, secs = budget[prop].thorough, 780
	}
	count = argI("count", count)
	t0 := time.Now()
	a := &agg{stats: map[string]int{}, scheds: map[uint64]bool{}, states: map[string]bool{}, prof: map[string]int{}, ended: map[string]int{}, others: map[string]int{}, otherAt: map[string]int{}, hashes: map[int]uint64{}, want: map[int]bool{}}
	for k := 0; k < 5 && k < count; k++ {
		a.want[k*count/5] = true
	}
	n := argI("workers", 8)
	known := knownFindings(dir)
	for _, kf := range known {
		if kf.Property == prop {
			a.known = append(a.known, kf.Key)
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			a.drive(prop, base, w, n, count, secs)
		}(w)
	}
	wg.Wait()
	code := 0
	// Repeat some runs in other processes: same seed, same execution.
	repeated := 0
	if len(a.harness) == 0 {
		for k := 0; k < 5 && k < count; k++ {
			i := k * count / 5
			h, ok := a.hashes[i]
			if !ok {
				continue
			}
			x, err := fresh(oneReq{Prop: prop, Profile: profileOf(prop, i), Seed: seedOf(base, prop, i)})
			if err != nil {
				a.warn = append(a.warn, "repeating a run: "+err.Error())
			} else if x.Hash != h {
				a.warn = append(a.warn, fmt.Sprintf("run %d is not repeatable", i))
			} else {
				repeated++
			}
		}
	}
	sort.Slice(a.viols, func(i, j int) bool { return a.viols[i].Index < a.viols[j].Index })
	var reported []map[string]any
	seen := map[string]bool{}
	knownSeen := map[string]int{}
	for _, r := range a.viols {
		v := r.viol(prop)
		for _, kf := range known {
			if kf.Property == prop && kf.Key == v.Key {
				knownSeen[kf.Key]++
				v = nil
				break
			}
		}
		if v == nil || seen[v.Key] || len(seen) >= 3 {
			continue
		}
		seen[v.Key] = true
		path, msg, err := report(dir, prop, r, v, base, n)
		if err != nil {
			a.harness = append(a.harness, err.Error())
			continue
		}
		fmt.Printf("%s\n", msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		reported = append(reported, map[string]any{"key": v.Key, "message": v.Msg, "replay": path, "seed": fmt.Sprint(r.Seed)})
		code = 1
	}
	for _, kf := range known {
		if kf.Property == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf.Text)
		}
	}
	wall := time.Since(t0).Seconds()
	evidence(dir, prop, tier, base, a, wall, reported, repeated, count, n)
	fmt.Printf("%s %s: %d runs in %.1fs, %.0fs simulated, %d schedules, %d states, %d violations\n", prop, tier, a.runs, wall, float64(a.simNs)/1e9, len(a.scheds), len(a.states), len(a.viols))
	if len(a.others) > 0 {
		fmt.Printf("(runs that ended on a violation of another property: %v, first in runs %v)\n", a.others, a.otherAt)
	}
	for _, w := range a.warn {
		fmt.Println("MACHINERY WARNING:", w)
	}
	if len(a.harness) > 0 && code == 0 {
		for i, h := range a.harness {
			if i < 3 {
				fmt.Println("MACHINERY ERROR:", h)
			}
		}
		return 2
	}
	return code
}

// drive runs one worker process and adds up what it reports.
func (a *agg) drive(prop string, base uint64, w, n, count, secs int) {
	c := exec.Command(os.Args[0], "worker", "-prop", prop, "-seed", fmt.Sprint(base), "-from", fmt.Sprint(w), "-step", fmt.Sprint(n), "-count", fmt.Sprint(count), "-secs", fmt.Sprint(secs))
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var errb bytes.Buffer
	c.Stderr = &errb
	out, err := c.StdoutPipe()
	if err == nil {
		err = c.Start()
	}
	if err != nil {
		a.mu.Lock()
		a.harness = append(a.harness, err.Error())
		a.mu.Unlock()
		return
	}
	t := time.AfterFunc(time.Duration(secs+40)*time.Second, func() { c.Process.Kill() })
	defer t.Stop()
	dec := json.NewDecoder(bufio.NewReaderSize(out, 1<<20))
	last := w - n
	bad := 0
	for {
		var r Result
		if dec.Decode(&r) != nil {
			break
		}
		last = r.Index
		a.mu.Lock()
		a.add(prop, &r)
		a.mu.Unlock()
		if v := r.viol(prop); r.Harness != "" || v != nil && !a.isKnown(v.Key) {
			bad++
			if bad >= 6 {
				c.Process.Kill()
				c.Wait()
				return
			}
		}
	}
	if err := c.Wait(); err != nil {
		i, msg := lastBreath(prop, base, last+n, n, count)
		a.mu.Lock()
		defer a.mu.Unlock()
		if i < 0 {
			a.harness = append(a.harness, fmt.Sprintf("worker died after run %d: %v: %s", last, err, head(errb.String(), 3000)))
			return
		}
		a.viols = append(a.viols, &Result{Index: i, Prop: prop, Profile: profileOf(prop, i), Seed: seedOf(base, prop, i), Viols: []rt.Violation{{Props: []string{"C01", prop}, Key: "process-death", Msg: "the process was brought down: " + msg}}})
	}
}

func head(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	return s
}

// lastBreath finds the run a worker died in.
func lastBreath(prop string, base uint64, from, step, count int) (int, string) {
	c := exec.Command(os.Args[0], "worker", "-prop", prop, "-seed", fmt.Sprint(base), "-from", fmt.Sprint(from), "-step", fmt.Sprint(step), "-count", fmt.Sprint(count), "-secs", "200", "-flush")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var errb bytes.Buffer
	c.Stderr = &errb
	out, err := c.StdoutPipe()
	if err == nil {
		err = c.Start()
	}
	if err != nil {
		return -1, ""
	}
	t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	dec := json.NewDecoder(bufio.NewReaderSize(out, 1<<20))
	i := from
	for {
		var r Result
		if dec.Decode(&r) != nil {
			break
		}
		t.Reset(60 * time.Second)
		i = r.Index + step
	}
	t.Stop()
	if err := c.Wait(); err != nil && i < count {
		return i, err.Error() + ": " + head(errb.String(), 3000)
	}
	return -1, ""
}

func (a *agg) isKnown(key string) bool {
	for _, k := range a.known {
		if k == key {
			return true
		}
	}
	return false
}

func (a *agg) add(prop string, r *Result) {
	if r.Harness != "" {
		a.harness = append(a.harness, fmt.Sprintf("run %d (%s): %s", r.Index, r.Profile, r.Harness))
		return
	}
	a.runs++
	a.simNs += r.SimNs
	a.steps += int64(r.Steps)
	a.prof[r.Profile]++
	a.ended[r.Ended]++
	a.scheds[r.SHash] = true
	if a.want[r.Index] {
		a.hashes[r.Index] = r.Hash
	}
	for k, v := range r.Stats {
		a.stats[k] += v
	}
	for _, s := range r.States {
		a.states[s] = true
	}
	if len(r.Viols) > 0 {
		if r.viol(prop) != nil {
			a.viols = append(a.viols, r)
		} else {
			k := strings.Join(r.Viols[0].Props, ",") + " " + r.Viols[0].Key
			if a.others[k]++; a.others[k] == 1 {
				a.otherAt[k] = r.Index
			}
		}
	}
	if len(a.samples) < 5 && r.Steps > 50 {
		a.samples = append(a.samples, fmt.Sprintf("run %d: profile %s, seed %d, %d scheduling steps, %.3fs simulated, ended: %s", r.Index, r.Profile, r.Seed, r.Steps, float64(r.SimNs)/1e9, r.Ended))
	}
}

// report confirms, minimises and writes down a violation.
func report(dir, prop string, r *Result, v *rt.Violation, base uint64, step int) (path, msg string, err error) {
	q := oneReq{Prop: prop, Profile: r.Profile, Seed: r.Seed}
	write := func(f Replay) {
		os.MkdirAll(filepath.Join(dir, "evidence", "replay"), 0o755)
		path = filepath.Join(dir, "evidence", "replay", fmt.Sprintf("%s-%016x.json", prop, r.Seed))
		b, _ := json.MarshalIndent(&f, "", " ")
		err = os.WriteFile(path, b, 0o644)
	}
	shows := func() bool {
		x, err := fresh(q)
		if v.Key == "process-death" {
			return err != nil
		}
		if err != nil {
			return false
		}
		y := x.viol(prop)
		return y != nil && y.Key == v.Key
	}
	note := ""
	if !shows() {
		// State of the process matters. Repeat what it had done before.
		first := r.Index % step
		ok := false
		for _, k := range []int{1, 10, 100, 1000, 20000} {
			from := r.Index - k*step
			if from < first {
				from = first
			}
			q.Before = &span{base, from, step, r.Index}
			if ok = shows(); ok || from == first {
				break
			}
		}
		note = "\n(only after the runs listed under \"before\" in the same process)"
		if !ok {
			note = "\n(seen once; it did not repeat)"
		}
	}
	if q.Before != nil || v.Key == "process-death" {
		write(Replay{Property: prop, Profile: r.Profile, Seed: r.Seed, Key: v.Key, Message: v.Msg, Hash: fmt.Sprint(r.Hash), Streams: r.Rec, Before: q.Before})
		return path, fmt.Sprintf("%s violated (%s), seed %d:\n%s%s", prop, v.Key, r.Seed, v.Msg, note), err
	}
	lim := 25 * time.Second
	st, tries := minimise(prop, r, v.Key, time.Now().Add(lim))
	q.Streams, q.Verbose = st, true
	z, err := fresh(q)
	min := true
	if err != nil || z.viol(prop) == nil || z.viol(prop).Key != v.Key {
		min = false
		q.Streams = r.Rec
		z, err = fresh(q)
		if err != nil {
			return "", "", err
		}
		if z.viol(prop) == nil {
			write(Replay{Property: prop, Profile: r.Profile, Seed: r.Seed, Key: v.Key, Message: v.Msg, Hash: fmt.Sprint(r.Hash)})
			return path, fmt.Sprintf("%s violated (%s), seed %d:\n%s", prop, v.Key, r.Seed, v.Msg), err
		}
	}
	_ = tries
	y := z.viol(prop)
	f := Replay{Property: prop, Profile: r.Profile, Seed: r.Seed, Key: y.Key, Message: y.Msg, Hash: fmt.Sprint(z.Hash), Streams: q.Streams, Choices: total(q.Streams), Minimised: min, Trace: z.Trace, Sched: z.Opt}
	if write(f); err != nil {
		return "", "", err
	}
	msg = fmt.Sprintf("%s violated (%s), seed %d, %d choices after minimising:\n%s", prop, y.Key, r.Seed, weightOf(q.Streams), y.Msg)
	return path, msg, nil
}

func evidence(dir, prop, tier string, base uint64, a *agg, wall float64, viols []map[string]any, repeated, planned, workers int) {
	faults, traffic, ops := map[string]int{}, map[string]int{}, map[string]int{}
	for k, v := range a.stats {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "op."), strings.HasPrefix(k, "uas."):
			ops[k] = v
		default:
			traffic[k] = v
		}
	}
	if a.samples == nil {
		a.samples = []string{}
	}
	if viols == nil {
		viols = []map[string]any{}
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(a.runs) / wall * 3600
	}
	ev := map[string]any{
		"property": prop,
		"tier":     tier,
		"seed":     base,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         a.runs,
			"distinct_nontrivial": len(a.scheds),
			"rule":                "a run is one simulated execution from one seed; runs count as distinct when the sequence of (task, synchronisation operation) pairs of the whole run differs (64-bit hash)",
			"samples":             a.samples,
			"planned_runs":        planned,
			"runs_per_hour":       int(perHour),
			"simulated_seconds":   float64(a.simNs) / 1e9,
			"scheduling_steps":    a.steps,
			"faults_injected":     faults,
			"operations":          ops,
			"traffic":             traffic,
			"profiles":            a.prof,
			"run_endings":         a.ended,
			"distinct_model_states": map[string]any{
				"count":   len(a.states),
				"measure": "distinct abstract states of the reference model reached (phase, pending request, resends, routes left, redirects, cancel/bye flags and the like), or of the scenario's own state for transports and RTP sessions",
			},
			"repeated_identically": repeated,
			"workers":              workers,
			"components": map[string]any{
				"real": "packages dialog, rtp, sip, sdp, util, dsp of the working tree, source-instrumented only to route scheduling, time, sockets, randomness, logging and channel operations to the simulator",
				"stub": "network, DNS, clock, goroutine scheduler, random source, remote parties",
			},
		},
		"wall_s":     wall,
		"violations": len(viols),
		"assumptions": []string{
			"simulated UDP sockets behave like Linux ones as far as the code can see (connected sockets filter by peer, ICMP refusals surface on the next read or write, bounded receive queue)",
			"seeded sampling of schedules and faults; absence of a violation is not a proof",
		},
	}
	if len(viols) > 0 {
		ev["violation_details"] = viols
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, "evidence", prop+".json"), append(b, '\n'), 0o644)
}
