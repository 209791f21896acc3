package main

import (
	"fmt"
	"net"
	"net/netip"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zsim/rt"
	"github.com/jart/gosip/zsim/snet"
)

// Scenarios with SIP transports: applications receive, answer, forward and
// originate messages among themselves and with simulated remote parties.

type tKnobs struct {
	Fam     int
	Tps     int
	Peers   int
	Horizon time.Duration
	Ops     int
	OpW     []int
	Nat     int // share of peers behind a NAT
	Style   int // how oddly peers format
	Bad     int // share of datagrams that are malformed
	Hostile int
	Corrupt int
	Odd     int // share of known special cases
	Slow    int
	Respond []int // weights: answer, forward, ignore
	Routes  int
	Sparse  int
	WriteErr,
	DNSErr int
	Big       int
	Break     int
	Tag       bool
	Loss, Dup int
	Reorder   int
	Jitter    time.Duration
	Lat       time.Duration
	BadResp   int
	RandFail  int
	Hand      int // share of an application's requests that are calls
}

const (
	opPeerReq  = iota // a peer sends a request
	opPeerResp        // a peer sends a response nobody waits for
	opAppReq
	opAppResp // application makes up a response
	opBreak
	opClose
	opFreeze
	opBurst
	opRaw
)

type tEnv struct {
	w        *snet.World
	k        *tKnobs
	tps      []*tpt
	byGroup  map[string]*tpt
	peers    []*tpeer
	bad      map[string]bool // malformed beyond doubt
	lastArg  *sip.Addr       // what a transport was made from
	lastHost *snet.Host
	lastNA   NA
	odd      map[string]string // known to be dropped, by class
	opt      map[string]bool   // hostile: may be delivered or not
	reg      map[string]*SM    // what peers meant to say
	ids      map[string]string // identifiers made by the system
	n        int
	states   map[string]bool
	sending  map[*rt.G]*tsend
	hung     map[*tsend]bool
	frozen   map[string]bool
	bg       int // tasks of applications at work
	dead     []netip.AddrPort
	hands    map[string]*hand
}

// texp is a datagram a transport's socket accepted.
type texp struct {
	kind byte // 'd'efinite, 'b'ad, 'o'ptional
	raw  string
	c    *cmsg
	resp bool
	src  netip.AddrPort
	at   int64
	odd  string
}

type tgot struct {
	msg  *sip.Msg
	c    *cmsg
	at   int64
	used bool
	weak bool // comes from something hostile
}

type tpt struct {
	e     *tEnv
	name  string
	host  *snet.Host
	tp    *dialog.Transport
	conn  *snet.UDPConn
	exp   []*texp
	got   []*tgot
	errs  []error
	cEnd  bool
	eEnd  bool
	ended bool
	broke bool // socket failed or was closed
	slow  func()
	sound map[string]bool           // canonical forms of what arrived undamaged
	srcs  map[string]netip.AddrPort // canonical request -> where it came from
	fwd   map[string]netip.AddrPort // branch we pushed -> where the request came from
	self  string                    // canonical contact
	kept  []keep
}

// keep is something the application uses for one message after another.
type keep struct {
	what string
	a    *sip.Addr
	l    []NA
}

func addrs(l []NA) (r *sip.Addr) {
	for i := len(l) - 1; i >= 0; i-- {
		a := l[i].sip()
		a.Next = r
		r = a
	}
	return
}

// reuse gives an address list the application may have used before.
func (t *tpt) reuse(what string, l ...NA) *sip.Addr {
	if !F(300) {
		return addrs(l)
	}
	if F(700) {
		n := W(3)
		for i := len(t.kept) - 1; i >= 0; i-- {
			if t.kept[i].what == what {
				if n--; n < 0 {
					rt.Stat("op.reused_header")
					return t.kept[i].a
				}
			}
		}
	}
	k := keep{what, addrs(l), l}
	t.kept = append(t.kept, k)
	return k.a
}

// pristine gives a message as the application meant it.
func (t *tpt) pristine(m *sip.Msg) *sip.Msg {
	r := *m
	for _, k := range t.kept {
		for _, p := range []**sip.Addr{&r.Route, &r.To, &r.From, &r.Contact} {
			if *p == k.a {
				*p = addrs(k.l)
			}
		}
		if r.Request == k.a.Uri {
			r.Request = addrs(k.l).Uri
		}
	}
	return &r
}

// tsend is a Send in progress.
type tsend struct {
	t      *tpt
	what   string
	writes []twrite
	done   bool
	weak   bool // derived from something hostile
	c      *cmsg
	dsts   []netip.AddrPort
}

type twrite struct {
	conn *snet.UDPConn
	dst  netip.AddrPort
	b    []byte
	err  error
}

type tpeer struct {
	e    *tEnv
	name string
	ap   netip.AddrPort // where its datagrams come from
	host string         // what it believes to be called
	port int
	conn *snet.UDPConn
}

func (e *tEnv) seq() int { e.n++; return e.n }

func tScenario(k *tKnobs) *tEnv {
	setFlag("timestampTagging", strconv.FormatBool(k.Tag))
	setFlag("trace", strconv.FormatBool(F(100)))
	w := snet.NewWorld()
	failRandom(k.RandFail, k.Horizon)
	thin = map[string]int{}
	e := &tEnv{w: w, k: k, byGroup: map[string]*tpt{}, bad: map[string]bool{}, odd: map[string]string{}, opt: map[string]bool{}, reg: map[string]*SM{}, ids: map[string]string{}, states: map[string]bool{}, sending: map[*rt.G]*tsend{}, hung: map[*tsend]bool{}, frozen: map[string]bool{}, hands: map[string]*hand{}}
	w.Latency = func(a, b netip.Addr) time.Duration { return k.Lat }
	w.LossPM, w.DupPM, w.ReorderPM, w.Jitter, w.CorruptPM, w.TruncPM = k.Loss, k.Dup, k.Reorder, k.Jitter, k.Corrupt, k.Corrupt/2
	w.FaultsTill = int64(k.Horizon)
	rt.S.Limit += int64(k.Horizon)
	w.OnAccept = e.onAccept
	w.OnWrite = e.onWrite
	w.WriteErr = func(c *snet.UDPConn, b []byte) error {
		if c.Handler == nil && w.Faulty() && rt.Flip(rt.NET, k.WriteErr) {
			return errNoBufs
		}
		return nil
	}
	if F(200) {
		w.DNSDelay = time.Duration(1+W(200)) * time.Millisecond
	}
	if !e.build() || rt.Over() {
		return e
	}
	for n := 1 + W(k.Ops); n > 0; n-- {
		op := weighted(k.OpW)
		at := time.Duration(W(int(k.Horizon)))
		if F(400) {
			at = time.Duration(W(int(k.Horizon) / 20))
		}
		rt.After(at, func() { e.op(op) })
	}
	e.quiet(int64(k.Horizon))
	if rt.Over() {
		return e
	}
	// Faults have stopped.
	for h := range e.frozen {
		rt.Thaw(h)
		e.frozen[h] = false
	}
	for _, t := range e.tps {
		t.slow = nil
	}
	e.quiet(0)
	for _, t := range e.tps {
		if !t.broke {
			t.probe()
		}
	}
	e.quiet(0)
	if rt.Over() {
		return e
	}
	for _, id := range rt.Keys(e.hands) {
		if e.hands[id].settled(); rt.Over() {
			return e
		}
	}
	for _, t := range e.tps {
		if !t.broke && F(700) {
			t.closeSock()
		}
	}
	e.quiet(0)
	if rt.Over() {
		return e
	}
	for s := range e.hung {
		rt.Fail([]string{"C13", "C14", "C01"}, "send-hangs", "%s: Send of %s never returned", s.t.name, s.what)
		return e
	}
	for _, t := range e.tps {
		if t.check(); rt.Over() {
			return e
		}
	}
	return e
}

// quiet runs the world until a time, or until nothing happens.
func (e *tEnv) quiet(till int64) {
	stop := till == 0
	if !stop {
		rt.At(till, func() { stop = true })
	}
	for !rt.Over() {
		more := rt.Quiesce()
		if till == 0 && !more || till != 0 && stop {
			return
		}
	}
}

func (e *tEnv) build() bool {
	k, w := e.k, e.w
	ip := func(h int) (l []string) {
		if k.Fam != 1 {
			l = append(l, fmt.Sprintf("203.0.113.%d", h))
		}
		if k.Fam != 0 {
			l = append(l, fmt.Sprintf("2001:db8::%x", h))
		}
		return
	}
	var hosts []*snet.Host
	for i := 0; i < 1+W(2); i++ {
		h := w.AddHost(fmt.Sprintf("ua%d", i), ip(1+i)...)
		hosts = append(hosts, h)
		w.DNS[fmt.Sprintf("ua%d.example", i)] = append([]netip.Addr(nil), h.IPs...)
	}
	for i := 0; i < k.Tps; i++ {
		h := hosts[W(len(hosts))]
		if !e.newTransport(i, h) {
			return false
		}
	}
	for i := 0; i < k.Peers; i++ {
		name := fmt.Sprintf("peer%d", i)
		a := []string{fmt.Sprintf("198.51.100.%d", 10+i), fmt.Sprintf("2001:db8:1::%x", 16+i)}
		f := k.Fam
		if f == 2 {
			f = W(3)
		}
		if f < 2 {
			a = a[f : f+1]
		}
		h := w.AddHost(name, a...)
		w.DNS[fmt.Sprintf("p%d.example", i)] = append([]netip.Addr(nil), h.IPs...)
		for _, ip := range h.IPs {
			p := &tpeer{e: e, name: name, ap: netip.AddrPortFrom(ip, uint16(pick(5060, 5060, 5080, 1024+W(60000))))}
			p.host, p.port = p.ap.Addr().String(), int(p.ap.Port())
			if p.port == 5060 && F(500) {
				p.port = 0
			}
			if F(k.Nat) {
				rt.Stat("op.nat_peer")
				switch W(4) {
				case 0:
					p.host = fmt.Sprintf("10.0.0.%d", 2+i)
				case 1:
					p.port = 1024 + W(60000)
				case 2:
					p.host, p.port = fmt.Sprintf("192.168.1.%d", 2+i), 5060
				case 3:
					p.host = fmt.Sprintf("pc%d.home.invalid", i)
				}
			}
			p.conn = h.OpenPeer(p.ap.String(), p.onPacket)
			e.peers = append(e.peers, p)
		}
		if F(k.DNSErr) {
			w.DNSErr[fmt.Sprintf("p%d.example", i)] = &net.DNSError{Err: "server misbehaving", Name: name, IsTemporary: true}
		}
	}
	return true
}

// repeats returns true if a parameter occurs twice, which RFC 3261 19.1.1 forbids.
func repeats(u *sip.URI) bool {
	seen := map[string]bool{}
	for p := u.Param; p != nil; p = p.Next {
		n := strings.ToLower(p.Name)
		if seen[n] {
			return true
		}
		seen[n] = true
	}
	return false
}

func (e *tEnv) newTransport(i int, h *snet.Host) bool {
	t := &tpt{e: e, name: fmt.Sprintf("tp%d", i), host: h, sound: map[string]bool{}, srcs: map[string]netip.AddrPort{}, fwd: map[string]netip.AddrPort{}}
	e.byGroup[t.name] = t
	u := URI{Scheme: "sip", Host: h.IPs[W(len(h.IPs))].String(), Port: pick(0, 0, 5060, 5070, 5061)}
	if F(300) {
		u.User = "alice"
	}
	if F(200) {
		u.P = append(u.P, Prm{"ob", "", false})
	}
	if F(100) {
		u.P = append(u.P, Prm{"transport", "udp", true})
	}
	if u.Host = pickS(u.Host, u.Host, h.IPs[0].String()); F(50) {
		u.Host = h.Name + ".example"
	}
	n := NA{U: u}
	if F(200) {
		n.Display = "Alice \"A\""
	}
	arg := n.sip()
	if F(200) {
		arg.Next = &sip.Addr{Uri: &sip.URI{Host: "elsewhere.example"}}
	}
	shared := e.lastArg != nil && e.lastHost == h && F(300)
	if shared {
		// Several transports from one template.
		arg, n = e.lastArg, e.lastNA
		u = n.U
		rt.Stat("op.shared_contact")
	}
	e.lastArg, e.lastHost, e.lastNA = arg, h, n
	before := len(e.w.OpenSocks(t.name))
	restore := rt.SetHost(h.Name, t.name)
	tp, err := dialog.NewTransport(arg)
	restore()
	socks := e.w.OpenSocks(t.name)
	if err != nil {
		rt.Stat("op.bind_failed")
		if tp != nil || len(socks) != before {
			rt.Fail([]string{"C12"}, "bind-leak", "NewTransport failed with %v but left things behind", err)
		}
		if u.Port == 0 {
			props := []string{"C12"}
			if shared {
				props = []string{"C12", "C14", "C21"} // The template was changed.
			}
			rt.Fail(props, "bind", "NewTransport failed for no reason: %v", err)
		}
		return true
	}
	if len(socks) != before+1 || tp == nil {
		rt.Fail([]string{"C12"}, "bind", "NewTransport opened %d sockets", len(socks)-before)
		return false
	}
	t.tp, t.conn = tp, socks[len(socks)-1]
	l := t.conn.Local()
	c := tp.Contact
	if c == nil || c.Uri == nil || c.Uri.Host != u.Host || c.Uri.Port != l.Port() || c.Next != nil || c.Uri.User != u.User || c.Display != n.Display || c.Uri.Param.Get("transport") == nil || (len(u.P) > 0 && u.P[0].Name == "ob") != (c.Uri.Param.Get("ob") != nil) || repeats(c.Uri) {
		rt.Fail([]string{"C14"}, "contact", "transport bound to %s has Contact %v", l, c)
		return false
	}
	if v := tp.Via; v == nil || v.Host != l.Addr().String() || v.Port != l.Port() {
		rt.Fail([]string{"C14"}, "via", "transport bound to %s has Via %v", l, v)
		return false
	}
	if u.Port != 0 && int(l.Port()) != u.Port {
		rt.Fail([]string{"C14"}, "bind-port", "transport asked for port %d is bound to %s", u.Port, l)
		return false
	}
	t.self = cAddr(c)
	if F(e.k.Slow) {
		rt.Stat("fault.slow_caller")
		t.slow = func() {
			if F(500) {
				rt.Sleep(time.Duration(1 + W(int(300*time.Millisecond))))
			}
		}
	}
	e.tps = append(e.tps, t)
	rt.GoOn("app-"+t.name, h.Name, "app-"+t.name, t.app)
	return true
}

// app is the application's event loop.
func (t *tpt) app() {
	c, x := t.tp.C, t.tp.E
	for c != nil || x != nil {
		rc, rx := rt.R(c), rt.R(x)
		switch rt.Select(false, rc, rx) {
		case 0:
			if !rc.OK {
				c = nil
				t.cEnd = true
				if len(t.errs) == 0 {
					rt.Fail([]string{"C12"}, "closed-first", "transport %s closed its message channel before reporting an error", t.name)
				}
				continue
			}
			t.deliver(rc.V)
		case 1:
			if !rx.OK {
				x = nil
				t.eEnd = true
				if len(t.errs) == 0 {
					rt.Fail([]string{"C12"}, "closed-first", "transport %s closed its error channel before reporting an error", t.name)
				}
				continue
			}
			t.errs = append(t.errs, rx.V)
			rt.Note("app", 'e', 0, func() string { return fmt.Sprintf("%s error %v", t.name, rx.V) })
			if !t.broke {
				rt.Fail([]string{"C12", "C01"}, "spurious-error", "%s reported an error although its socket is fine: %v", t.name, rx.V)
			}
			if rx.V == nil {
				rt.Fail([]string{"C12"}, "nil-error", "%s reported a nil error", t.name)
			}
		}
		if t.slow != nil {
			t.slow()
		}
	}
	t.ended = true
}

func (t *tpt) deliver(m *sip.Msg) {
	if m == nil {
		rt.Fail([]string{"C12"}, "nil-message", "%s delivered a nil message", t.name)
		return
	}
	g := &tgot{msg: m, c: canonMsg(m), at: rt.Now()}
	t.got = append(t.got, g)
	if g.weak = !t.sound[g.key()]; g.weak {
		rt.Stat("op.delivered_hostile")
	}
	rt.Stat("op.delivered")
	rt.Note("app", 'm', len(t.got), func() string { return t.name + " delivers " + g.c.start + " " + g.c.f["callid"] })
	if h := t.e.hands[m.CallID]; h != nil && h.t == t {
		h.got(g)
		return
	}
	a := weighted(t.e.k.Respond)
	if m.IsResponse() {
		switch {
		case a == 1:
			t.forwardResponse(g)
		case a == 0 && F(200):
			t.forwardResponse(g)
		}
		return
	}
	if m.Method == "ACK" && a == 0 {
		a = 2
	}
	var act func()
	switch a {
	case 0:
		act = func() { t.respond(g) }
	case 1:
		act = func() { t.forward(g) }
	default:
		return
	}
	if F(300) {
		t.spawn("later", time.Duration(W(int(500*time.Millisecond))), act)
	} else {
		act()
	}
}

// spawn does something for the application in a task of its own.
func (t *tpt) spawn(what string, d time.Duration, fn func()) {
	f := func() {
		if !rt.Over() {
			rt.GoOn(what+"-"+t.name, t.host.Name, "app-"+t.name, fn)
		}
	}
	if d == 0 {
		f()
	} else {
		rt.After(d, f)
	}
}

func (e *tEnv) onWrite(c *snet.UDPConn, dst netip.AddrPort, b []byte, err error) {
	if c.Handler != nil {
		return
	}
	if s := e.sending[rt.Cur()]; s != nil {
		if s.weak {
			e.opt[string(b)] = true
		}
		s.writes = append(s.writes, twrite{c, dst, append([]byte(nil), b...), err})
		return
	}
	rt.Fail([]string{"C12", "C13", "C14"}, "unprompted", "datagram sent to %s from %s without anybody asking: %s", dst, c.Local(), snet.Head(b))
}

func (e *tEnv) onAccept(c *snet.UDPConn, p *snet.Packet) {
	t := e.byGroup[c.Owner]
	if t == nil {
		return
	}
	x := &texp{kind: 'o', raw: string(p.Data), src: p.Src, at: rt.Now()}
	t.exp = append(t.exp, x)
	switch {
	case e.bad[x.raw] && !p.Corrupt:
		x.kind = 'b'
	case p.Corrupt, e.opt[x.raw]:
	case e.odd[x.raw] != "":
		x.kind, x.odd = 'd', e.odd[x.raw]
	default:
		x.kind = 'd'
	}
	if x.kind != 'd' {
		return
	}
	m := e.reg[x.raw]
	if m == nil {
		var err error
		if m, err = parseSM(p.Data); err != nil {
			if x.odd == "" {
				x.kind = 'o' // Passed on by an application.
			}
			return
		}
	}
	x.resp = m.Resp
	x.c = expectDelivery(m, c.Local())
	t.sound[x.c.String()] = true
	if !m.Resp {
		key := x.c.String()
		if s, ok := t.srcs[key]; ok && s != p.Src {
			t.srcs[key] = netip.AddrPort{}
		} else {
			t.srcs[key] = p.Src
		}
	}
}

func port5060(p int) int {
	if p == 0 {
		return 5060
	}
	return p
}

// expectDelivery is what an application gets for a message.
func expectDelivery(m *SM, l netip.AddrPort) *cmsg {
	m = m.clone()
	self := func(u URI) bool { return u.Host == l.Addr().String() && port5060(u.Port) == int(l.Port()) }
	if len(m.Route) > 0 && self(m.Route[0].U) {
		m.Route = m.Route[1:]
	}
	if u, ok := parseURI(m.RURI); ok && !m.Resp && u.Lr() && self(u) && len(m.Route) > 0 {
		m.RURI = m.Route[len(m.Route)-1].U.String()
		m.Route = m.Route[:len(m.Route)-1]
	}
	c := canonSM(m)
	if !m.Resp {
		c.vias[0].drop("received", "rport")
		v := canonSM(m).vias[0]
		c.dup = v.count("received") > 1 || v.count("rport") > 1
	}
	return c
}

// matches tells whether a delivered message is the one expected.
func (x *texp) matches(g *tgot) (bool, string) {
	c := g.c
	if !x.resp && len(c.vias) > 0 {
		c = c.clone()
		v := &c.vias[0]
		if r, ok := v.get("received"); ok && r != x.src.Addr().String() {
			return false, fmt.Sprintf("received parameter %q for a datagram from %s", r, x.src)
		}
		if r, ok := v.get("rport"); ok && r != strconv.Itoa(int(x.src.Port())) && r != "" {
			return false, fmt.Sprintf("rport parameter %q for a datagram from %s", r, x.src)
		}
		if (v.count("received") > 1 || v.count("rport") > 1) && !x.c.dup {
			return false, fmt.Sprintf("Via was annotated twice: %s", v)
		}
		v.drop("received", "rport")
	}
	if d := diff(c, x.c); d != "" {
		return false, d
	}
	return true, ""
}

// check compares what was delivered with what had arrived.
func (t *tpt) check() {
	exp := t.exp
	if t.broke {
		if t.conn.Reads > len(exp) {
			rt.HarnessError("%s read %d of %d datagrams", t.name, t.conn.Reads, len(exp))
			return
		}
		exp = exp[:t.conn.Reads]
	}
	// ways[i][j]: the first i datagrams account for the first j messages
	cur := make([]bool, len(t.got)+1)
	cur[0] = true
	bi, bj := 0, 0
	for i, x := range exp {
		next := make([]bool, len(t.got)+1)
		any := false
		for j, ok := range cur {
			if !ok {
				continue
			}
			if x.kind != 'd' {
				next[j] = true
			}
			if j < len(t.got) {
				switch x.kind {
				case 'd':
					if x.c != nil {
						if ok, _ := x.matches(t.got[j]); ok {
							next[j+1] = true
						}
					}
				case 'o':
					next[j+1] = true
				}
			}
		}
		for j, ok := range next {
			if ok {
				any = true
				bi, bj = i+1, j
			}
		}
		if !any {
			for j, ok := range cur {
				if ok {
					bi, bj = i, j
				}
			}
			t.mismatch(exp, bi, bj)
			return
		}
		cur = next
	}
	if !cur[len(t.got)] {
		_ = bi
		rt.Fail(t.props(), "extra-message", "%s delivered a message nobody sent: %s", t.name, clip(t.got[bj].c.String()))
		return
	}
	// Nothing may have changed since.
	for _, g := range t.got {
		if d := diff(canonMsg(g.msg), g.c); d != "" && !g.used {
			rt.Fail([]string{"C12"}, "message-changed", "a message delivered by %s changed afterwards:%s", t.name, d)
			return
		}
	}
	if !t.broke {
		if len(t.errs) > 0 || t.cEnd || t.eEnd {
			rt.Fail([]string{"C12"}, "stopped", "%s stopped receiving although its socket is fine", t.name)
		}
		return
	}
	if len(t.errs) != 1 || !t.cEnd || !t.eEnd {
		rt.Fail([]string{"C12"}, "failure-report", "the socket of %s failed; it reported %d errors, message channel closed: %v, error channel closed: %v", t.name, len(t.errs), t.cEnd, t.eEnd)
		return
	}
	if l := rt.Alive(t.name); len(l) > 0 {
		rt.Fail([]string{"C12"}, "task-left", "the socket of %s failed and its channels are closed, yet tasks remain: %v", t.name, l)
	}
}

func (t *tpt) props() []string {
	if t.e.k.Hostile > 0 {
		return []string{"C12", "C01"}
	}
	return []string{"C12", "C21"}
}

func (t *tpt) mismatch(exp []*texp, i, j int) {
	x := exp[i]
	props := t.props()
	key, why := "undelivered", "nothing more was delivered"
	if x.odd != "" {
		rt.Fail([]string{"C12"}, x.odd, "%s did not deliver this well-formed datagram:\n%s", t.name, clip(x.raw))
		return
	}
	if j < len(t.got) {
		_, why = x.matches(t.got[j])
		why = "what was delivered instead differs:" + why
		if t.got[j].c.f["callid"] == x.c.f["callid"] {
			key = "altered"
		} else {
			key = "missing"
		}
		for _, y := range exp[:i] {
			if y.kind == 'd' && y.raw != x.raw {
				if ok, _ := y.matches(t.got[j]); ok {
					key = "repeated"
				}
			}
		}
		for _, y := range exp[i+1:] {
			if y.kind == 'd' && y.raw != x.raw {
				if ok, _ := y.matches(t.got[j]); ok {
					key = "missing-or-reordered"
				}
			}
		}
	} else if x.resp == false && strings.Contains(x.raw, "rport") {
		key = "undelivered"
	}
	rt.Fail(props, key, "%s accepted datagram %d from %s at %v\n%s\nbut %s", t.name, i, x.src, time.Duration(x.at), clip(x.raw), why)
}

func (t *tpt) probe() {
	for _, p := range t.e.peers {
		if p.ap.Addr().Is4() == t.conn.Local().Addr().Is4() {
			m := p.request(t, "OPTIONS")
			p.conn.SendFrom(t.conn.Local(), m.Bytes())
			return
		}
	}
}

func (t *tpt) closeSock() {
	if t.broke {
		return
	}
	t.broke = true
	rt.Stat("op.close_transport")
	t.spawn("close", 0, func() { t.conn.Close() })
}

func (e *tEnv) op(op int) {
	if rt.Over() || len(e.tps) == 0 {
		return
	}
	t := e.tps[W(len(e.tps))]
	switch op {
	case opPeerReq:
		e.peerSend(t, false)
	case opPeerResp:
		e.peerSend(t, true)
	case opBurst:
		n := 2 + W(8)
		if F(50) {
			n = 60 + W(20)
		}
		for ; n > 0; n-- {
			e.peerSend(t, F(200))
		}
	case opAppReq:
		if F(e.k.Hand) {
			t.spawn("hand", 0, t.handCall)
		} else {
			t.spawn("req", 0, t.originate)
		}
	case opAppResp:
		t.spawn("resp", 0, t.ownResponse)
	case opBreak:
		if !t.broke && F(e.k.Break) {
			t.broke = true
			errno := []error{syscall.EIO, syscall.ENOMEM, syscall.ENOTCONN, syscall.ENETDOWN}
			t.conn.Kill(errno[W(len(errno))])
		}
	case opClose:
		if F(e.k.Break) {
			t.closeSock()
		}
	case opFreeze:
		h := t.host.Name
		if e.frozen[h] {
			return
		}
		e.frozen[h] = true
		rt.Freeze(h)
		rt.After(time.Duration(1+W(int(2*time.Second))), func() {
			if e.frozen[h] {
				e.frozen[h] = false
				rt.Thaw(h)
			}
		})
	case opRaw:
		if p := e.peerFor(t); p != nil {
			b := e.hostileBytes(p, t)
			rt.Stat("fault.hostile_datagram")
			e.opt[string(b)] = true
			p.conn.SendFrom(t.conn.Local(), b)
		}
	}
	e.state(t)
}

func (e *tEnv) state(t *tpt) {
	lim := func(n int) int {
		switch {
		case n > 8:
			return 9
		case n > 3:
			return 4
		}
		return n
	}
	e.states[fmt.Sprint(len(e.tps), t.broke, t.slow != nil, lim(len(t.exp)-len(t.got)), lim(t.conn.Queued()), lim(len(t.got)), lim(len(e.hung)), t.conn.Local().Addr().Is4())] = true
}

func (e *tEnv) peerFor(t *tpt) *tpeer {
	var l []*tpeer
	for _, p := range e.peers {
		if p.ap.Addr().Is4() == t.conn.Local().Addr().Is4() {
			l = append(l, p)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[W(len(l))]
}

// peerSend makes a peer send something to a transport.
func (e *tEnv) peerSend(t *tpt, resp bool) {
	p := e.peerFor(t)
	if p == nil {
		return
	}
	if F(e.k.Bad) {
		b := e.malformed(p, t)
		e.bad[string(b)] = true
		rt.Stat("fault.malformed_datagram")
		p.conn.SendFrom(t.conn.Local(), b)
		return
	}
	if F(e.k.Odd) {
		b, class := e.oddity(p, t)
		e.odd[string(b)] = class
		p.conn.SendFrom(t.conn.Local(), b)
		return
	}
	var m *SM
	if resp {
		m = p.response(t)
	} else {
		m = p.request(t, "")
	}
	b := e.render(m)
	if len(b) > 65000 {
		return
	}
	q, err := readSM(b)
	if err != nil {
		rt.HarnessError("made a malformed message: %v\n%s", err, b)
		return
	}
	if d := diff(canonSM(q), canonSM(m)); d != "" {
		rt.HarnessError("misspelt a message:%s\n%s", d, b)
		return
	}
	e.reg[string(b)] = m
	rt.Stat("op.peer_message")
	p.conn.SendFrom(t.conn.Local(), b)
}

// onPacket is a peer receiving something.
func (p *tpeer) onPacket(k *snet.Packet) {
	e := p.e
	m, err := parseSM(k.Data)
	if err != nil || k.Corrupt {
		return
	}
	if h := e.hands[m.CallID]; h != nil {
		h.arrived(p, k, m)
		return
	}
	if m.Resp {
		return
	}
	if m.Method == "ACK" || !F(700) {
		return
	}
	r := m.respond(pick(200, 180, 404, 302, 100, 486), "p"+fmt.Sprint(e.seq()))
	r.Phrase = pickS("OK", "Not Really", "")
	if F(300) {
		r.Contact = []NA{{U: URI{Scheme: "sip", User: "x", Host: p.ap.Addr().String(), Port: int(p.ap.Port())}}}
	}
	if F(300) {
		r.CType, r.Body = e.body()
	}
	// Like a real one, answer to where the request came from.
	v := &r.Vias[0]
	if v.Host != k.Src.Addr().String() {
		v.P = append(v.P, Prm{"received", k.Src.Addr().String(), true})
	}
	b := r.Bytes()
	rt.After(time.Duration(W(int(200*time.Millisecond))), func() {
		if !rt.Over() {
			p.conn.SendFrom(k.Src, b)
		}
	})
}

// Sending.

// send hands a message to the transport and checks what comes of it. It returns
// nil if nothing should have been sent or what was sent is unknown.
func (t *tpt) send(m *sip.Msg, what string, truth netip.AddrPort, weak bool) *tsend {
	e := t.e
	var want *cmsg
	var dsts []netip.AddrPort
	var fail string
	var prop []string
	if !weak {
		want, dsts, fail, prop = t.expectSend(t.pristine(m))
	}
	if truth.IsValid() && len(dsts) > 0 {
		dsts = []netip.AddrPort{truth}
	}
	if e.hands[m.CallID] != nil {
		prop = append(prop, "C23")
	}
	g := rt.Cur()
	s := &tsend{t: t, what: what, weak: weak}
	e.sending[g] = s
	e.hung[s] = true
	rt.Note("app", 's', 0, func() string { return t.name + " sends " + what })
	err := t.tp.Send(m)
	delete(e.hung, s)
	delete(e.sending, g)
	s.done = true
	rt.Stat("op.app_send")
	if weak {
		return nil
	}
	if fail != "" {
		if len(s.writes) > 0 {
			rt.Fail(prop, "sent-anyway", "%s: %s was sent to %s although %s:\n%s", t.name, what, s.writes[0].dst, fail, clip(string(s.writes[0].b)))
			return nil
		}
		if err == nil {
			rt.Fail(prop, "no-error", "%s: Send of %s returned no error although %s", t.name, what, fail)
		}
		rt.Stat("op.app_send_refused")
		return nil
	}
	if len(s.writes) == 0 {
		if err == nil {
			rt.Fail(prop, "not-sent", "%s: Send of %s returned nil but nothing was sent", t.name, what)
		} else {
			rt.Fail(prop, "refused", "%s: Send of %s failed: %v", t.name, what, err)
		}
		return nil
	}
	if len(s.writes) > 1 {
		rt.Fail(prop, "sent-twice", "%s: Send of %s sent %d datagrams", t.name, what, len(s.writes))
		return nil
	}
	w := s.writes[0]
	if w.conn != t.conn {
		rt.Fail(append(prop, "C21"), "wrong-socket", "%s: %s was sent through socket %s", t.name, what, w.conn.Local())
		return nil
	}
	ok := false
	for _, d := range dsts {
		ok = ok || w.dst == d
	}
	if !ok {
		rt.Fail(prop, "wrong-destination", "%s: %s was sent to %s instead of %v\n%s", t.name, what, w.dst, dsts, clip(string(w.b)))
		return nil
	}
	if (err != nil) != (w.err != nil) {
		rt.Fail(prop, "error-report", "%s: Send of %s returned %v, the write %v", t.name, what, err, w.err)
		return nil
	}
	x, perr := parseSM(w.b)
	if perr != nil {
		rt.Fail(prop, "malformed", "%s: %s went out malformed (%v):\n%s", t.name, what, perr, clip(string(w.b)))
		return nil
	}
	s.c, s.dsts = canonSM(x), dsts
	is := canonSM(x)
	t.identifiers(is, want)
	if rt.Over() {
		return nil
	}
	if want.start == fmt.Sprint(m.Status, " ") {
		want.start = is.start // The library knows what to write.
	}
	if d := diff(is, want); d != "" {
		rt.Fail(prop, "content", "%s: %s went out altered:%s\n%s", t.name, what, d, clip(string(w.b)))
	}
	if _, ok := x.Hget("Expires"); !ok && x.Method == "REGISTER" {
		// Zero, which takes back a registration, isn't the same as nothing.
		rt.Fail(prop, "content", "%s: %s went out without Expires\n%s", t.name, what, clip(string(w.b)))
	}
	if rt.Over() {
		return nil
	}
	return s
}

// insist sends it a few times more.
func (t *tpt) insist(m *sip.Msg, s *tsend) {
	if s != nil && F(150) {
		for n := 1 + W(3); n > 0; n-- {
			t.again(m, s)
		}
	}
}

// again sends what was sent before, as applications do that hear nothing.
func (t *tpt) again(m *sip.Msg, first *tsend) {
	if t.broke || rt.Over() {
		return
	}
	e := t.e
	g := rt.Cur()
	s := &tsend{t: t, what: first.what + " again"}
	e.sending[g] = s
	e.hung[s] = true
	rt.Note("app", 's', 0, func() string { return t.name + " sends " + s.what })
	err := t.tp.Send(m)
	delete(e.hung, s)
	delete(e.sending, g)
	s.done = true
	rt.Stat("op.app_resend")
	prop := []string{"C14", "C23"}
	if m.IsResponse() {
		prop[0] = "C13"
	}
	if len(s.writes) != 1 {
		rt.Fail(prop, "resend", "%s: Send of %s sent %d datagrams (%v)", t.name, s.what, len(s.writes), err)
		return
	}
	w := s.writes[0]
	ok := false
	for _, d := range first.dsts {
		ok = ok || w.dst == d
	}
	if !ok || w.conn != t.conn {
		rt.Fail(prop, "resend-elsewhere", "%s: %s was sent to %s instead of %v\n%s", t.name, s.what, w.dst, first.dsts, clip(string(w.b)))
		return
	}
	x, perr := parseSM(w.b)
	if perr != nil {
		rt.Fail(prop, "malformed", "%s: %s went out malformed (%v):\n%s", t.name, s.what, perr, clip(string(w.b)))
		return
	}
	if d := diff(canonSM(x), first.c); d != "" {
		rt.Fail(prop, "resend-differs", "%s: %s went out different:%s\n%s", t.name, s.what, d, clip(string(w.b)))
	}
}

const made = "*made*"

// identifiers checks what the library made up and blanks it out.
func (t *tpt) identifiers(is, want *cmsg) {
	uniq := func(kind, v string) {
		if by, ok := t.e.ids[kind+v]; ok {
			rt.Fail([]string{"C20"}, kind+"-repeats", "%s made %s %q, which %s had made before", t.name, kind, v, by)
		}
		t.e.ids[kind+v] = t.name
		guessable(len(t.e.ids), v)
		short(kind, v, t.name)
	}
	if len(want.vias) > 0 && len(is.vias) > 0 {
		if b, _ := want.vias[0].get("branch"); b == made {
			if b, ok := is.vias[0].get("branch"); ok {
				uniq("branch", b)
				if !strings.HasPrefix(b, "z9hG4bK") || len(b) <= 8 {
					rt.Fail([]string{"C20"}, "branch-cookie", "%s made branch %q", t.name, b)
				}
				setP(is.vias[0].p, "branch", made)
			}
		}
	}
	if want.f["callid"] == made && is.f["callid"] != "" {
		uniq("Call-ID", is.f["callid"])
		is.f["callid"] = made
	}
	if strings.HasPrefix(want.f["cseq"], made) {
		if f := strings.Fields(is.f["cseq"]); len(f) == 2 {
			is.f["cseq"] = made + " " + f[1]
		}
	}
	if l := want.lists["from"]; len(l) == 1 && strings.Contains(l[0], "tag="+made) {
		for i, s := range is.lists["from"] {
			// Not in what precedes, which may look like it.
			g := strings.LastIndexByte(s, '>') + 1
			if j := strings.Index(s[g:], "tag="); j >= 0 {
				tag := s[g+j+4:]
				if k := strings.IndexByte(tag, ';'); k >= 0 {
					tag = tag[:k]
				}
				uniq("tag", tag)
				is.lists["from"][i] = s[:g] + strings.Replace(s[g:], "tag="+tag, "tag="+made, 1)
			}
		}
	}
}

// resolve lists the addresses a host may mean.
func (t *tpt) resolve(host string, port int) (r []netip.AddrPort) {
	if a, err := netip.ParseAddr(host); err == nil {
		return []netip.AddrPort{netip.AddrPortFrom(a.Unmap(), uint16(port5060(port)))}
	}
	if t.e.w.DNSErr[host] != nil {
		return nil
	}
	for _, a := range t.e.w.DNS[host] {
		r = append(r, netip.AddrPortFrom(a, uint16(port5060(port))))
	}
	return
}

// expectSend says what sending a message should lead to.
func (t *tpt) expectSend(m *sip.Msg) (want *cmsg, dsts []netip.AddrPort, fail string, prop []string) {
	c := canonMsg(m)
	l := t.conn.Local()
	if m.IsResponse() {
		prop = []string{"C13"}
		delete(c.f, "maxforwards")
		if len(c.vias) > 0 && c.vias[0].host == l.Addr().String() && port5060(c.vias[0].port) == int(l.Port()) {
			c.vias = c.vias[1:]
		}
		if len(c.vias) == 0 {
			return c, nil, "it has nowhere to go", prop
		}
		v := &c.vias[0]
		host, port := v.host, v.port
		if r, ok := v.get("received"); ok {
			host = r
		}
		if r, ok := v.get("rport"); ok && r != "" {
			n, err := strconv.Atoi(r)
			if err != nil || n < 0 || n > 65535 {
				return c, nil, "its rport is invalid", prop
			}
			port = n
		}
		dsts = t.resolve(host, port)
		if len(dsts) == 0 {
			fail = "its destination does not resolve"
		}
		return c, dsts, fail, prop
	}
	prop = []string{"C14"}
	own := cvia{"SIP/2.0/UDP", l.Addr().String(), int(l.Port()), nil}
	if len(c.vias) == 0 {
		c.vias = []cvia{own}
	}
	if _, ok := c.vias[0].get("branch"); !ok {
		c.vias[0].p = append(c.vias[0].p, Prm{"branch", made, true})
	}
	contact := m.Contact
	if contact == nil {
		contact = t.tp.Contact
		c.lists["contact"] = []string{t.self}
	}
	if len(c.lists["to"]) == 0 {
		c.lists["to"] = []string{fmt.Sprintf("%q <%s>;", "", cSipURI(m.Request))}
	}
	if len(c.lists["from"]) == 0 {
		f := *contact
		f.Next = nil
		u := *f.Uri
		u.Param = nil
		f.Uri = &u
		c.lists["from"] = []string{cAddr(&f)}
		c.lists["from"][0] = addTag(c.lists["from"][0], params(f.Param))
	} else if m.From.Param.Get("tag") == nil {
		c.lists["from"][0] = addTag(c.lists["from"][0], params(m.From.Param))
	}
	if m.CallID == "" {
		c.f["callid"] = made
	}
	meth := m.CSeqMethod
	if meth == "" {
		meth = m.Method
	}
	c.f["cseq"] = fmt.Sprint(m.CSeq, " ", meth)
	if m.CSeq == 0 {
		c.f["cseq"] = made + " " + meth
	}
	mf := m.MaxForwards
	if mf == 0 {
		mf = 70
	}
	c.f["maxforwards"] = fmt.Sprint(mf - 1)
	if m.UserAgent == "" {
		c.f["useragent"] = dialog.GosipUA
	}
	// Routing.
	route := m.Route
	rs := c.lists["route"]
	cu := t.tp.Contact.Uri
	if route != nil && route.Uri.Host == cu.Host && int(route.Uri.GetPort()) == port5060(int(cu.Port)) {
		route, rs = route.Next, rs[1:]
	}
	next := m.Request
	switch {
	case route != nil && m.Method == "REGISTER":
		return c, nil, "it is a REGISTER with a route", prop
	case route != nil && route.Uri.Param.Get("lr") != nil:
		next = route.Uri
	case route != nil:
		next = route.Uri
		rs = append(append([]string(nil), rs[1:]...), fmt.Sprintf("%q <%s>;", "", cSipURI(m.Request)))
		c.start = m.Method + " " + cSipURI(route.Uri)
	}
	c.lists["route"] = rs
	if len(rs) == 0 {
		delete(c.lists, "route")
	}
	if mf == 1 {
		return c, nil, "its Max-Forwards is exhausted", prop
	}
	dsts = t.resolve(next.Host, int(next.Port))
	if len(dsts) == 0 {
		fail = "its destination does not resolve"
	}
	return c, dsts, fail, prop
}

// addTag adds a made up tag to a canonical address.
func addTag(s string, ps []Prm) string {
	i := strings.LastIndex(s, ">;")
	return s[:i+2] + sortedPrms(append(append([]Prm(nil), ps...), Prm{"tag", made, true}))
}

// key is what the message looked like before it was annotated.
func (g *tgot) key() string {
	c := g.c.clone()
	if len(c.vias) > 0 && !g.msg.IsResponse() {
		c.vias[0].drop("received", "rport")
	}
	return c.String()
}

func (t *tpt) truthOf(g *tgot) netip.AddrPort { return t.srcs[g.key()] }

// respond answers a request.
func (t *tpt) respond(g *tgot) {
	m := g.msg
	if t.e.k.Tag {
		g.used = true // Its Via gets a timestamp.
	}
	st := pick(200, 180, 404, 500, 302, 405, 699)
	want := identity(m, m)
	r := dialog.NewResponse(m, st)
	if got := identity(r, m); got != want || r.Status != st {
		rt.Fail([]string{"C13"}, "newresponse", "NewResponse(%d) to\n%s\nmade a %d with\n%s", st, want, r.Status, got)
		return
	}
	if r.Phrase == "" {
		r.Phrase = "Extraordinary"
	}
	// The tag goes into a copy as To belongs to the request.
	if r.To.Param.Get("tag") == nil && F(500) {
		r.To = r.To.Copy().Tag()
	}
	if F(400) {
		r.Contact = t.tp.Contact
	}
	if F(300) {
		r.Payload = t.e.payload()
	}
	if F(200) {
		r.XHeader = &sip.XHeader{Name: "X-Mood", Value: []byte("gay; bright"), Next: nil}
	}
	src := t.truthOf(g)
	v := m.Via
	if src.IsValid() && v.Host == t.conn.Local().Addr().String() && v.GetPort() == t.conn.Local().Port() {
		src = netip.AddrPort{} // Claims to be us.
	}
	t.insist(r, t.send(r, fmt.Sprintf("response %d to %s from %s", r.Status, m.Method, src), src, g.weak))
}

// identity is what a response has in common with its request.
func identity(m, request *sip.Msg) string {
	c := canonMsg(m)
	c.start, c.body, c.x = "", "", nil
	for k := range c.lists {
		if k != "from" && k != "to" && k != "record-route" {
			delete(c.lists, k)
		}
	}
	for k := range c.f {
		if k != "callid" && k != "cseq" {
			delete(c.f, k)
		}
	}
	if _, n := untagged(request.To); n == 0 && m.To != nil {
		// A response may come with a new one.
		to, _ := untagged(m.To)
		c.lists["to"] = []string{cAddr(to)}
	}
	return c.String()
}

// forward acts as a proxy.
func (t *tpt) forward(g *tgot) {
	m := g.msg.Copy()
	v := t.tp.Via.Copy().Branch()
	v.Next = m.Via
	m.Via = v
	b := v.Param.Get("branch").Value
	if by, ok := t.e.ids["branch"+b]; ok {
		rt.Fail([]string{"C20"}, "branch-repeats", "branch %q was made before by %s", b, by)
		return
	}
	t.e.ids["branch"+b] = t.name
	t.fwd[b] = t.truthOf(g)
	if len(t.e.peers) == 0 {
		return
	}
	if F(800) {
		m.Request = t.e.somewhere(t).sip()
	}
	switch {
	case F(t.e.k.Routes) && m.Method != "REGISTER":
		n := NA{U: t.e.somewhere(t)}
		n.U.P = nil
		if !F(300) {
			n.U.P = []Prm{loose()}
		}
		a := n.sip()
		a.Next = m.Route
		m.Route = a
	}
	if F(300) {
		rr := t.tp.Contact.Copy()
		rr.Next = m.RecordRoute
		m.RecordRoute = rr
	}
	t.insist(m, t.send(m, "forwarded "+m.Method, netip.AddrPort{}, g.weak))
	if F(300) && !t.e.k.Tag {
		// Copies are the application's to do with as it pleases.
		rt.Stat("op.scribbled_copy")
		for v := m.Via; v != nil; v = v.Next {
			v.Host, v.Port = "scribble.example", 9
		}
		for _, a := range []*sip.Addr{m.From, m.To, m.Contact, m.Route, m.RecordRoute, m.PAssertedIdentity, m.RemotePartyID} {
			for ; a != nil && a != t.tp.Contact; a = a.Next {
				a.Display, a.Uri.Host, a.Uri.User = "scribble", "scribble.example", "s"
			}
		}
		m.Request.Host, m.Request.Port = "scribble.example", 9
	}
}

// forwardResponse passes a response on.
func (t *tpt) forwardResponse(g *tgot) {
	m := new(sip.Msg)
	*m = *g.msg
	if t.e.k.Tag {
		g.used = true
	}
	var truth netip.AddrPort
	l := t.conn.Local()
	if m.Via != nil && m.Via.Host == l.Addr().String() && m.Via.GetPort() == l.Port() {
		if b := m.Via.Param.Get("branch"); b != nil {
			truth = t.fwd[b.Value]
		}
		// Only if our own Via is followed by what we had received.
		if m.Via.Next == nil || m.Via.Next.Host == l.Addr().String() && m.Via.Next.GetPort() == l.Port() {
			truth = netip.AddrPort{}
		}
	}
	if m.Phrase == "" {
		m.Phrase = "Forwarded"
	}
	t.insist(m, t.send(m, fmt.Sprintf("forwarded response %d", m.Status), truth, g.weak))
}

// somewhere is a URI a message may be sent to.
func (e *tEnv) somewhere(t *tpt) URI {
	u := URI{Scheme: "sip", User: pickS("bob", "", "a b", "x:y")}
	if strings.Contains(u.User, " ") {
		u.User = "carol"
	} else if u.User == "x:y" {
		u.User = "dave"
	}
	switch weighted([]int{50, 20, 20, 5, 5}) {
	case 0:
		p := e.peerFor(t)
		if p == nil {
			p = e.peers[W(len(e.peers))]
		}
		u.Host, u.Port = p.ap.Addr().String(), int(p.ap.Port())
		if u.Port == 5060 && F(400) {
			u.Port = 0
		}
	case 1:
		o := e.tps[W(len(e.tps))]
		u.Host, u.Port = o.conn.Local().Addr().String(), int(o.conn.Local().Port())
	case 2:
		u.Host, u.Port = fmt.Sprintf("p%d.example", W(e.k.Peers)), pick(0, 5060, 5080)
	case 3:
		u.Host = "gone.example"
	case 4:
		u.Host, u.Port = "192.0.2.99", pick(0, 5062)
	}
	if F(200) {
		u.P = append(u.P, Prm{"user", "phone", true})
	}
	return u
}

// originate sends a request of the application.
func (t *tpt) originate() {
	e := t.e
	if len(e.peers) == 0 {
		return
	}
	methods := []string{"OPTIONS", "INVITE", "REGISTER", "MESSAGE", "SUBSCRIBE", "PUBLISH", "INFO", "BYE", "X-FOO"}
	meth := methods[W(len(methods))]
	to := NA{U: e.somewhere(t)}
	var m *sip.Msg
	if F(400) {
		var from *sip.Addr
		who, mine := t.self, ""
		if F(500) {
			n := NA{Display: pickS("", "Al"), U: URI{Scheme: "sip", User: "al", Host: "home.example"}}
			if F(300) {
				n.P = []Prm{{"x-who", "me", true}}
			}
			if F(250) {
				// It was the address of an earlier dialog.
				n.P = append(n.P, Prm{pickS("tag", "tag", "Tag"), fmt.Sprint("old", e.seq()), true})
				if F(300) {
					n.P = append(n.P, Prm{"x-last", "", false})
				}
				from = n.sip()
				f, _ := untagged(from)
				mine, who = cAddr(from), cAddr(f)
			} else {
				from = t.reuse("who", n)
				who = t.meant(from)
				mine = who
			}
		}
		dst := t.reuse("dst", to)
		was := t.meant(dst)
		m = dialog.NewRequest(t.tp, meth, dst, from)
		if !t.copied(m, from, dst, mine, who, was) {
			return
		}
		// These are made by the library, too.
		b := m.Via.Param.Get("branch")
		tag := m.From.Param.Get("tag") // copied saw to it being the only one
		if b == nil || tag == nil || m.CallID == "" || m.Method != meth {
			rt.Fail([]string{"C14"}, "newrequest", "NewRequest left things out: %v", m)
			return
		}
		for _, s := range []string{"branch" + b.Value, "tag" + tag.Value, "Call-ID" + m.CallID} {
			if by, ok := e.ids[s]; ok {
				rt.Fail([]string{"C20"}, "identifier-repeats", "NewRequest made %s, which %s had made before", s, by)
				return
			}
			e.ids[s] = t.name
		}
		if !strings.HasPrefix(b.Value, "z9hG4bK") {
			rt.Fail([]string{"C20"}, "branch-cookie", "%s made branch %q", t.name, b.Value)
			return
		}
	} else {
		m = &sip.Msg{Method: meth, Request: t.reuse("uri", to).Uri}
	}
	s := e.k.Sparse
	if F(s) {
		m.Via = &sip.Via{Host: t.conn.Local().Addr().String(), Port: t.conn.Local().Port()}
		if F(400) {
			m.Via.Param = &sip.Param{Name: "rport"}
		}
		if F(400) {
			m.Via.Param = &sip.Param{Name: "branch", Value: fmt.Sprint("z9hG4bKmine", e.seq()), Next: m.Via.Param}
		}
	}
	if F(s) {
		m.Contact = t.reuse("contact", NA{Display: pickS("", "Me"), U: URI{Scheme: "sip", User: "me", Host: t.tp.Contact.Uri.Host, Port: int(t.conn.Local().Port()), P: []Prm{{"ob", "", false}}}})
	}
	if F(s) {
		n := NA{Display: pickS("", "Fro \"m\""), U: URI{Scheme: "sip", User: "from", Host: "home.example"}}
		if F(500) {
			n.P = []Prm{{"tag", fmt.Sprint("ft", e.seq()), true}}
			m.From = t.reuse("from", n)
		} else {
			if F(500) {
				n.P = []Prm{{"x-who", "me", true}}
			}
			m.From = n.sip()
		}
	}
	if F(s) {
		m.To = t.reuse("to", NA{U: URI{Scheme: "sip", User: "to", Host: "far.example", Port: pick(0, 5061)}, P: []Prm{{"tag", "tt", true}}})
	}
	if F(s) {
		m.CallID = fmt.Sprintf("mine-%d@%s", e.seq(), t.name)
	}
	if F(s) {
		m.CSeq = 1 + W(70000)
	}
	if F(s) {
		m.CSeqMethod = meth
	}
	if F(s) {
		m.MaxForwards = pick(70, 1, 2, 69, 255)
	}
	if F(s) {
		m.UserAgent = "tester/2"
	}
	if F(s) {
		m.Payload = e.payload()
	}
	if F(s) {
		m.Supported, m.Expires, m.ReplyTo, m.RetryAfter = "timer", 60, "<sip:r@example.com>", "5"
	}
	if F(s) {
		m.XHeader = &sip.XHeader{Name: "X-B", Value: []byte("two words"), Next: &sip.XHeader{Name: "X-A", Value: []byte("\"q\" <1>")}}
	}
	if F(e.k.Routes) {
		var l []NA
		for n := some(3); n > 0; n-- {
			u := e.somewhere(t)
			u.P = nil
			if F(250) {
				u.Host, u.Port = t.tp.Contact.Uri.Host, int(t.tp.Contact.Uri.Port)
				if u.Port == 5060 && F(500) {
					u.Port = 0
				}
			}
			if !F(300) {
				u.P = []Prm{loose()}
			}
			l = append(l, NA{U: u})
		}
		m.Route = t.reuse("route", l...)
	}
	t.insist(m, t.send(m, "own "+meth, netip.AddrPort{}, false))
}

// meant is an address as the application made it.
func (t *tpt) meant(a *sip.Addr) string {
	for _, k := range t.kept {
		if k.a == a {
			return cNA(&k.l[0])
		}
	}
	return cAddr(a)
}

// copied looks at what NewRequest made of addresses that are the application's.
func (t *tpt) copied(m *sip.Msg, from, to *sip.Addr, mine, who, whom string) bool {
	bad := func(f string, a ...any) bool {
		rt.Fail([]string{"C14"}, "newrequest", f, a...)
		return false
	}
	if m.Request == nil || m.To == nil || m.From == nil {
		return bad("NewRequest left things out: %v", m)
	}
	if g := cAddr(m.To); g != whom {
		return bad("NewRequest to %s made To %s", whom, g)
	}
	if g := cSipURI(m.Request); g != cSipURI(to.Uri) {
		return bad("NewRequest to %s made Request-URI %s", whom, g)
	}
	f, tags := untagged(m.From)
	if g := cAddr(f); g != who || tags != 1 {
		return bad("NewRequest from %s made From %s with %d tags", who, g, tags)
	}
	if from != nil && cAddr(from) != mine {
		return bad("NewRequest turned the address %s into %s", mine, cAddr(from))
	}
	if g := cAddr(to); g != whom {
		return bad("NewRequest turned the address %s into %s", whom, g)
	}
	if g := cAddr(t.tp.Contact); g != t.self {
		return bad("NewRequest turned the transport's Contact %s into %s", t.self, g)
	}
	return true
}

// untagged gives the address without its tags, and how many it had.
func untagged(a *sip.Addr) (*sip.Addr, int) {
	f := *a
	f.Param = nil
	tags := 0
	end := &f.Param
	for p := a.Param; p != nil; p = p.Next {
		if strings.EqualFold(p.Name, "tag") {
			tags++
			continue
		}
		*end = &sip.Param{Name: p.Name, Value: p.Value}
		end = &(*end).Next
	}
	return &f, tags
}

// ownResponse sends a response the application made up entirely.
func (t *tpt) ownResponse() {
	e := t.e
	if len(e.peers) == 0 {
		return
	}
	m := &sip.Msg{
		Status: pick(200, 180, 404), Phrase: pickS("Made Up", "100% \"real\" [x]", text()), CallID: fmt.Sprintf("resp-%d@x", e.seq()), CSeq: 1 + W(99), CSeqMethod: "OPTIONS",
		From: (&NA{U: URI{Scheme: "sip", User: "a", Host: "b"}, P: []Prm{{"tag", "x", true}}}).sip(),
		To:   (&NA{U: URI{Scheme: "sip", User: "c", Host: "d"}}).sip(),
	}
	if F(100) {
		m.MaxForwards = pick(1, 2, 70)
	}
	l := t.conn.Local()
	n := W(4)
	var last *sip.Via
	for i := 0; i < n; i++ {
		v := &sip.Via{}
		u := e.somewhere(t)
		v.Host, v.Port = u.Host, uint16(u.Port)
		if i == 0 && F(600) {
			v.Host, v.Port = l.Addr().String(), l.Port()
			if l.Port() == 5060 && F(500) {
				v.Port = 0
			}
		}
		v.Param = &sip.Param{Name: "branch", Value: fmt.Sprint("z9hG4bKr", e.seq())}
		if F(400) {
			v.Param = &sip.Param{Name: "received", Value: e.somewhere(t).Host, Next: v.Param}
		}
		if F(400) {
			v.Param = &sip.Param{Name: "rport", Value: strconv.Itoa(pick(5060, 5080, 1024+W(60000))), Next: v.Param}
		}
		if F(100) {
			v.Param = &sip.Param{Name: "rport", Value: pickS("", "70000", "-1", "abc", "65536", "0x10", "99999999999999999999"), Next: v.Param}
		}
		if last == nil {
			m.Via = v
		} else {
			last.Next = v
		}
		last = v
	}
	t.insist(m, t.send(m, "made up response", netip.AddrPort{}, false))
}
