package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"net/netip"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/zsim/rt"
	"github.com/jart/gosip/zsim/snet"
)

// RTP sessions: applications drive real sessions over the simulated network,
// remote parties send them audio and worse.

type rKnobs struct {
	Fam      int
	Sessions int
	Peers    int
	Horizon  time.Duration
	Ops      int
	OpW      []int
	Dual     int // share of applications receiving and sending in different tasks
	Hold     int // share of frames held on to for a while
	Lazy     int // share of frames handed back while the event loop goes on
	Swap     int // share of frames replaced by another one
	WriteErr int
	InUse    int
	BindErr  int
	Explicit int
	NoPeer   int
	Header   int // share of sessions whose numbering starts near a wrap
	Odd      int // share of packets that aren't plain audio
	Hostile  int
	Corrupt  int
	Loss, Dup,
	Reorder int
	Jitter time.Duration
	Lat    time.Duration
	Idle   int // share of applications not listening at all
	Long   bool
}

const (
	roFrame = iota
	roRaw
	roDTMF
	roBad   // not a digit
	roPeer  // change of the remote address
	roAudio // a remote party sends
	roBurst
	roClose
	roBreak
	roFreeze
	roHead // application renumbers the stream
	roNew  // another session
	roNil
)

type rEnv struct {
	w      *snet.World
	k      *rKnobs
	list   []*rsess
	by     map[string]*rsess
	hosts  []*snet.Host
	peers  []*rpeer
	frozen map[string]bool
	froze  bool
	binds  map[string]*rbind
	n      int
	states map[string]bool
	send   map[*rt.G]*rsend
}

type rpeer struct {
	ap   netip.AddrPort
	conn *snet.UDPConn
	ssrc uint32
	seq  uint16
	ts   uint32
}

// rbind records the attempts to bind of one call.
type rbind struct {
	addrs []string
	errs  []error
}

type rsend struct {
	writes []twrite
}

// rpos is what may come next in a stream.
type rpos struct {
	seq   uint16
	ts    uint32
	later uint32 // 0: exactly ts; else at least that much later than ts
}

type rexp struct {
	kind byte // 'd', 'n', 'o'
	f    rtp.Frame
	at   int64
	src  netip.AddrPort
}

type rsess struct {
	e       *rEnv
	name    string
	host    *snet.Host
	rs      *rtp.Session
	conn    *snet.UDPConn
	peer    netip.AddrPort // as the application set it
	dual    bool
	idle    bool
	ctl     chan func()
	busy    bool
	free    rt.WaitQ
	closing bool
	closed  bool
	closeAt int64
	broke   bool
	errs    int
	down    bool // error seen, waiting to close
	quit    bool
	exp     []*rexp
	next    int // first of exp not accounted for
	frames  int
	held    []*rheld
	kept    []*rheld // swapped for others
	lastp   *rtp.Frame
	// Egress.
	known bool
	ssrc  uint32
	pos   []rpos
	any   bool // numbering unknown
}

type rheld struct {
	p    *rtp.Frame
	f    rtp.Frame
	back bool
}

func ulawDec(u byte) int16 {
	u = ^u
	t := (int(u&15) << 3) + 0x84
	t <<= (u >> 4) & 7
	if u&0x80 != 0 {
		return int16(0x84 - t)
	}
	return int16(t - 0x84)
}

func ulawEnc(s int16) byte {
	x, sign := int(s), 0
	if x < 0 {
		x, sign = -x, 0x80
	}
	if x > 32635 {
		x = 32635
	}
	x += 0x84
	e := 7
	for e > 0 && x&(0x80<<uint(e)) == 0 {
		e--
	}
	return ^byte(sign | e<<4 | x>>uint(e+3)&15)
}

// noise fills b with bytes that follow from one choice.
func noise(b []byte) {
	x := uint64(W(1<<30))*2654435761 + 88172645463325252
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 24)
	}
}

func rScenario(k *rKnobs) *rEnv {
	w := snet.NewWorld()
	e := &rEnv{w: w, k: k, by: map[string]*rsess{}, frozen: map[string]bool{}, states: map[string]bool{}, send: map[*rt.G]*rsend{}, binds: map[string]*rbind{}}
	w.Latency = func(a, b netip.Addr) time.Duration { return k.Lat }
	w.LossPM, w.DupPM, w.ReorderPM, w.Jitter, w.CorruptPM, w.TruncPM = k.Loss, k.Dup, k.Reorder, k.Jitter, k.Corrupt, k.Corrupt/2
	w.FaultsTill = int64(k.Horizon)
	rt.S.Limit += int64(k.Horizon)
	w.OnAccept = e.onAccept
	w.OnWrite = e.onWrite
	w.WriteErr = func(c *snet.UDPConn, b []byte) error {
		if c.Handler == nil && w.Faulty() && rt.Flip(rt.NET, k.WriteErr) {
			return []error{syscall.ENOBUFS, syscall.EPERM, syscall.ENETUNREACH, syscall.EHOSTUNREACH}[rt.Choose(rt.NET, 4)]
		}
		return nil
	}
	w.BindErr = func(h *snet.Host, addr string) error {
		if rt.Flip(rt.NET, k.InUse) {
			return os.NewSyscallError("bind", syscall.EADDRINUSE)
		}
		if rt.Flip(rt.NET, k.BindErr) {
			return []error{os.NewSyscallError("bind", syscall.EACCES), os.NewSyscallError("socket", syscall.EMFILE), os.NewSyscallError("bind", syscall.EADDRNOTAVAIL), os.NewSyscallError("socket", syscall.ENOBUFS)}[rt.Choose(rt.NET, 4)]
		}
		return nil
	}
	w.BindTry = func(h *snet.Host, addr string, err error) {
		if b := e.binds[rt.Cur().Group]; b != nil {
			b.addrs, b.errs = append(b.addrs, addr), append(b.errs, err)
		}
	}
	e.build()
	for i := 0; i < k.Sessions && !rt.Over(); i++ {
		e.newSession()
	}
	if rt.Over() {
		return e
	}
	for n := 1 + W(k.Ops); n > 0; n-- {
		op := weighted(k.OpW)
		at := time.Duration(W(int(k.Horizon)))
		if F(300) {
			at = time.Duration(W(int(k.Horizon) / 20))
		}
		rt.After(at, func() { e.op(op) })
	}
	if k.Long && len(e.list) > 0 {
		e.stream(e.list[W(len(e.list))])
	}
	e.quiet(int64(k.Horizon))
	if rt.Over() {
		return e
	}
	// One pair might coincide.
	ssrc := map[uint32]int{}
	for _, s := range e.list {
		if s.known {
			if ssrc[s.ssrc]++; ssrc[s.ssrc] == 3 {
				rt.Fail([]string{"C15"}, "ssrc-shared", "three sessions identify themselves as %#x", s.ssrc)
				return e
			}
		}
	}
	// Faults have stopped.
	for _, h := range rt.Keys(e.frozen) {
		rt.Thaw(h)
		e.frozen[h] = false
	}
	e.quiet(0)
	for _, s := range e.list {
		if s.live() && !s.broke && !s.down {
			if p := e.peerFor(s); p != nil {
				p.audio(s)
			}
		}
	}
	e.quiet(0)
	if rt.Over() {
		return e
	}
	for _, s := range e.list {
		if s.check(); rt.Over() {
			return e
		}
	}
	for _, s := range e.list {
		if s.rs != nil && !s.closed && !s.closing {
			s := s
			s.do(func() { s.close() })
		}
	}
	e.quiet(0)
	if rt.Over() {
		return e
	}
	for _, s := range e.list {
		if s.rs != nil && !s.closed {
			rt.Fail([]string{"C18", "C01"}, "close-hangs", "%s: closing never returned (asked at %v); its tasks: %v %v", s.name, time.Duration(s.closeAt), rt.Alive(s.name), rt.Alive("app-"+s.name))
			return e
		}
		if s.gone(); rt.Over() {
			return e
		}
		s.quit = true
	}
	return e
}

func (e *rEnv) quiet(till int64) {
	stop := till == 0
	if !stop {
		rt.At(till, func() { stop = true })
	}
	for !rt.Over() {
		more := rt.Quiesce()
		if till == 0 && !more || till != 0 && stop {
			return
		}
	}
}

func (e *rEnv) build() {
	k, w := e.k, e.w
	ip := func(v4, v6 string, h int) (l []string) {
		if k.Fam != 1 {
			l = append(l, fmt.Sprintf("%s%d", v4, h))
		}
		if k.Fam != 0 {
			l = append(l, fmt.Sprintf("%s%x", v6, h))
		}
		return
	}
	for i := 0; i < 1+W(2); i++ {
		h := w.AddHost(fmt.Sprintf("ua%d", i), ip("203.0.113.", "2001:db8::", 1+i)...)
		w.DNS[fmt.Sprintf("ua%d.example", i)] = append([]netip.Addr(nil), h.IPs...)
		e.hosts = append(e.hosts, h)
	}
	for i := 0; i < k.Peers; i++ {
		h := w.AddHost(fmt.Sprintf("peer%d", i), ip("198.51.100.", "2001:db8:1::", 10+i)...)
		for _, a := range append(h.IPs[:len(h.IPs):len(h.IPs)], h.IPs[:W(2)]...) {
			p := &rpeer{ap: netip.AddrPortFrom(a, uint16(1024+W(60000))), ssrc: uint32(W(1 << 30)), seq: uint16(W(65536)), ts: uint32(W(1 << 30))}
			if p.conn = h.OpenPeer(p.ap.String(), func(*snet.Packet) {}); p.conn != nil {
				e.peers = append(e.peers, p)
			}
		}
	}
}

// newSession lets an application open a session.
func (e *rEnv) newSession() {
	h := e.hosts[W(len(e.hosts))]
	e.n++
	s := &rsess{e: e, name: fmt.Sprintf("rs%d", e.n), host: h, dual: F(e.k.Dual), idle: F(e.k.Idle), ctl: make(chan func(), 1000), any: true}
	e.by[s.name] = s
	ip := h.IPs[W(len(h.IPs))]
	host := ip.String()
	switch W(8) {
	case 1:
		host = ""
	case 2:
		host = h.Name + ".example"
	case 3:
		host = "0.0.0.0"
		if ip.Is6() {
			host = "::"
		}
	case 4:
		if F(100) {
			host = "nowhere.invalid"
		} else if F(100) {
			host = "192.0.2.77" // not ours
		}
	}
	explicit := ""
	if F(e.k.Explicit) {
		explicit = strconv.Itoa(pick(5004, 5005, 1024+W(60000), 40000))
		host = net.JoinHostPort(host, explicit)
	}
	b := &rbind{}
	e.binds[s.name] = b
	restore := rt.SetHost(h.Name, s.name)
	rs, err := rtp.NewSession(host)
	restore()
	delete(e.binds, s.name)
	rt.Note("app", 'b', len(b.addrs), func() string { return fmt.Sprintf("%s binds %q: %v %v", s.name, host, b.addrs, err) })
	socks := e.w.OpenSocks(s.name)
	e.checkBind(s, b, host, explicit, rs, err, socks)
	if rt.Over() {
		return
	}
	if rs == nil {
		rt.Stat("op.bind_failed")
		if a := rt.Alive(s.name); len(a) > 0 {
			rt.Fail([]string{"C19"}, "bind-leak", "NewSession(%q) failed with %v but left tasks behind: %v", host, err, a)
		}
		return
	}
	rt.Stat("op.session")
	s.rs, s.conn = rs, socks[0]
	e.list = append(e.list, s)
	if rs.Sock == nil || rs.C == nil || rs.E == nil || rs.R == nil {
		rt.Fail([]string{"C19", "C17"}, "half-session", "NewSession(%q) returned a session lacking socket or channels", host)
		return
	}
	if !F(e.k.NoPeer) {
		s.setPeer()
	}
	if F(e.k.Header) {
		s.renumber()
	}
	if !s.idle {
		rt.GoOn("app-"+s.name, h.Name, "app-"+s.name, s.loop)
	}
}

func (e *rEnv) checkBind(s *rsess, b *rbind, host, explicit string, rs *rtp.Session, err error, socks []*snet.UDPConn) {
	fail := func(key, f string, a ...any) {
		rt.Fail([]string{"C19"}, key, "NewSession(%q): %s; attempts %v, their results %v", host, fmt.Sprintf(f, a...), b.addrs, b.errs)
	}
	if (rs == nil) != (err != nil) {
		fail("bind-result", "returned session %v and error %v", rs != nil, err)
		return
	}
	n := len(b.addrs)
	if n == 0 {
		fail("bind-nothing", "never tried to bind")
		return
	}
	inuse := func(i int) bool {
		return b.errs[i] != nil && strings.Contains(b.errs[i].Error(), "address already in use")
	}
	for i := 0; i < n-1; i++ {
		switch {
		case explicit != "":
			fail("bind-explicit", "tried %d times", n)
			return
		case b.errs[i] == nil:
			fail("bind-again", "went on after success")
			return
		case !inuse(i):
			fail("bind-retry", "retried after an error that isn't about the port")
			return
		}
	}
	if n > 10 {
		fail("bind-attempts", "tried %d times", n)
		return
	}
	if n < 10 && explicit == "" && inuse(n-1) {
		fail("bind-attempts", "gave up after %d attempts", n)
		return
	}
	if ok := b.errs[n-1] == nil; ok != (rs != nil) {
		fail("bind-result", "last attempt ended with %v but the result is %v", b.errs[n-1], err)
		return
	}
	for i, a := range b.addrs {
		h, p, err := net.SplitHostPort(a)
		if err != nil {
			if b.errs[i] != nil && explicit != "" {
				continue
			}
			fail("bind-address", "address %q", a)
			return
		}
		if explicit != "" {
			if a != host {
				fail("bind-explicit", "bound %q", a)
				return
			}
			continue
		}
		port, err := strconv.Atoi(p)
		if err != nil || port < 16384 || port > 32768 || port%2 != 0 {
			fail("bind-port", "port %q isn't an even one from 16384 to 32768", p)
			return
		}
		if h != host && !e.resolves(host, h) {
			fail("bind-host", "host %q", h)
			return
		}
	}
	if explicit == "" && n >= 4 {
		same := true
		for _, a := range b.addrs {
			same = same && a == b.addrs[0]
		}
		if same {
			fail("bind-same", "tries the same port all the time")
			return
		}
	}
	if rs == nil {
		if len(socks) != 0 {
			fail("bind-leak", "failed but left %d sockets open", len(socks))
		}
		return
	}
	if len(socks) != 1 {
		fail("bind-leak", "opened %d sockets", len(socks))
		return
	}
	_, p, _ := net.SplitHostPort(b.addrs[n-1])
	if strconv.Itoa(int(socks[0].Local().Port())) != p {
		fail("bind-port", "bound port %d", socks[0].Local().Port())
		return
	}
	h := host
	if explicit != "" {
		h, _, _ = net.SplitHostPort(host)
	}
	l := socks[0].Local().Addr()
	switch {
	case h == "" || h == "0.0.0.0" || h == "::":
		if !socks[0].Wild() {
			fail("bind-host", "bound %s", l)
		}
	case h != l.String() && !e.resolves(h, l.String()):
		fail("bind-host", "bound %s", l)
	}
}

func (e *rEnv) resolves(name, addr string) bool {
	for _, a := range e.w.DNS[name] {
		if a.String() == addr {
			return true
		}
	}
	return false
}

// peerFor picks a party that can reach the session.
func (e *rEnv) peerFor(s *rsess) *rpeer {
	var l []*rpeer
	for _, p := range e.peers {
		if s.reaches(p.ap.Addr()) {
			l = append(l, p)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[W(len(l))]
}

func (s *rsess) reaches(a netip.Addr) bool {
	if !s.conn.Wild() {
		return s.conn.Local().Addr().Is4() == a.Is4()
	}
	return s.conn.HostOf().Family(a.Is4()).IsValid()
}

func (s *rsess) addr(a netip.Addr) netip.AddrPort {
	l := s.conn.Local()
	if s.conn.Wild() {
		l = netip.AddrPortFrom(s.conn.HostOf().Family(a.Is4()), l.Port())
	}
	return l
}

func (s *rsess) setPeer() {
	p := s.e.peerFor(s)
	if p == nil {
		return
	}
	a := net.UDPAddrFromAddrPort(p.ap)
	s.peer = p.ap
	if s.rs.Peer != nil && F(300) {
		s.rs.Peer.IP, s.rs.Peer.Port = a.IP, a.Port
		return
	}
	s.rs.Peer = a
}

func (s *rsess) renumber() {
	rt.Stat("op.renumber")
	h := &s.rs.Header
	h.Seq = uint16(pick(65535, 65534, 65530, 0, W(65536)))
	h.TS = []uint32{1<<32 - 1, 1<<32 - 160, 1<<32 - 400, 1<<32 - 1000, 0, 1 << 31, 1<<31 - 100}[W(7)]
	s.any, s.pos = false, []rpos{{seq: h.Seq, ts: h.TS}}
}

func (s *rsess) live() bool { return s.rs != nil && !s.closing && !s.closed }

// do has the application do something, in whatever task it uses for that.
func (s *rsess) do(fn func()) {
	if s.dual || s.idle {
		rt.GoOn("op-"+s.name, s.host.Name, "app-"+s.name, func() {
			s.lock()
			fn()
			s.unlock()
		})
		return
	}
	rt.GoOn("ctl-"+s.name, s.host.Name, "app-"+s.name, func() { rt.S_(s.ctl).Send(fn) })
}

func (s *rsess) lock() {
	for s.busy {
		s.free.Wait("app", 0)
	}
	s.busy = true
}

func (s *rsess) unlock() {
	s.busy = false
	s.free.WakeOne()
}

// loop is the application's event loop.
func (s *rsess) loop() {
	for !rt.Over() {
		c, x := s.rs.C, s.rs.E
		if s.down || s.closed {
			if s.dual {
				if s.closed {
					return
				}
				c, x = nil, nil
			} else if s.down {
				c, x = nil, nil
			}
		}
		if s.dual && s.down {
			return
		}
		rc, rx, ro := rt.R(c), rt.R(x), rt.R(s.ctl)
		switch rt.Select(false, rc, rx, ro) {
		case 0:
			if s.dual && (s.closing || s.closed) {
				return
			}
			if !rc.OK || rc.V == nil {
				rt.Fail([]string{"C18"}, "empty-frame", "%s: the application's event loop received an empty frame (channel closed: %v, session closed: %v, socket failed: %v, errors so far: %d)", s.name, !rc.OK, s.closed, s.broke, s.errs)
				return
			}
			s.frame(rc.V)
		case 1:
			if s.dual && (s.closing || s.closed) {
				return
			}
			s.errs++
			if !rx.OK || rx.V == nil {
				rt.Fail([]string{"C18"}, "empty-error", "%s: the application's event loop received an empty error (channel closed: %v, session closed: %v, socket failed: %v)", s.name, !rx.OK, s.closed, s.broke)
				return
			}
			rt.Note("app", 'e', 0, func() string { return fmt.Sprintf("%s error %v", s.name, rx.V) })
			rt.Stat("op.error_reported")
			if s.closed {
				rt.Fail([]string{"C18"}, "error-after-close", "%s: error after close: %v", s.name, rx.V)
				return
			}
			if !s.broke {
				rt.Fail([]string{"C18", "C17", "C01"}, "spurious-error", "%s reported an error although its socket is fine: %v", s.name, rx.V)
				return
			}
			if s.errs > 1 {
				rt.Fail([]string{"C18"}, "error-twice", "%s reported %d errors", s.name, s.errs)
				return
			}
			s.down = true
			d := time.Duration(0)
			if F(300) {
				d = time.Duration(W(int(time.Second)))
			}
			if !s.dual && d == 0 {
				s.close()
			} else {
				rt.After(d, func() {
					if !rt.Over() {
						s.do(func() { s.close() })
					}
				})
			}
		case 2:
			ro.V()
		}
	}
}

// frame is the application getting a frame.
func (s *rsess) frame(p *rtp.Frame) {
	s.frames++
	rt.Stat("op.frame_delivered")
	for _, h := range s.held {
		if h.p == p && !h.back {
			rt.Fail([]string{"C17"}, "frame-shared", "%s delivered a frame the application still owns", s.name)
			return
		}
	}
	for _, h := range s.kept {
		if h.p == p || *h.p != h.f {
			rt.Fail([]string{"C17"}, "frame-kept", "%s delivered into a frame the application never handed back", s.name)
			return
		}
	}
	f := *p
	rt.Note("app", 'f', rt.HashBytes(frameBytes(&f)), func() string { return fmt.Sprintf("%s frame %d", s.name, s.frames) })
	if !s.match(&f) {
		return
	}
	h := &rheld{p: p, f: f}
	s.held = append(s.held, h)
	if F(s.e.k.Lazy) {
		rt.Stat("fault.slow_application")
		rt.After(time.Duration(W(int(300*time.Millisecond))), func() {
			if !rt.Over() {
				s.do(func() { s.handBack(h) })
			}
		})
		return
	}
	if F(s.e.k.Hold) {
		rt.Stat("fault.slow_application")
		rt.Sleep(time.Duration(1 + W(int(100*time.Millisecond))))
	}
	if s.dual {
		s.lock()
		defer s.unlock()
	}
	s.handBack(h)
}

func frameBytes(f *rtp.Frame) []byte {
	b := make([]byte, 320)
	for i, x := range f {
		binary.BigEndian.PutUint16(b[2*i:], uint16(x))
	}
	return b
}

// handBack returns a frame after looking whether it is as it was.
func (s *rsess) handBack(h *rheld) {
	if *h.p != h.f {
		rt.Fail([]string{"C17"}, "frame-changed", "%s: a frame changed while the application owned it", s.name)
		return
	}
	h.back = true
	for i := range s.held {
		if s.held[i] == h {
			s.held = append(s.held[:i:i], s.held[i+1:]...)
			break
		}
	}
	if s.closing || s.closed {
		return
	}
	p := h.p
	if F(200) {
		// It's the application's to write to.
		for i := range p {
			p[i] = int16(i * 99)
		}
	}
	if F(s.e.k.Swap) {
		// Any frame will do. What isn't handed back stays the application's.
		rt.Stat("op.frame_swapped")
		h := &rheld{p: p, f: *p}
		if len(s.kept) > 0 && F(500) {
			p = s.kept[0].p
			s.kept = s.kept[1:]
		} else {
			p = new(rtp.Frame)
			p[7] = 7
		}
		s.kept = append(s.kept, h)
	}
	rt.S_(s.rs.R).Send(p)
}

// match accounts for a delivered frame.
func (s *rsess) match(f *rtp.Frame) bool {
	for s.next < len(s.exp) {
		x := s.exp[s.next]
		s.next++
		switch {
		case x.kind == 'n':
		case *f == x.f:
			return true
		case x.kind == 'o':
		default:
			// Something else comes first.
			for _, y := range s.exp[s.next:] {
				if y.kind != 'n' && y.f == *f {
					rt.Fail(s.ingress(), "frame-lost", "%s: audio accepted at %v from %s wasn't delivered, or after later audio", s.name, time.Duration(x.at), x.src)
					return false
				}
			}
			rt.Fail(s.ingress(), "frame-wrong", "%s: frame %d differs from the audio accepted at %v from %s:\n got %v\nwant %v", s.name, s.frames, time.Duration(x.at), x.src, f[:24], x.f[:24])
			return false
		}
	}
	for _, x := range s.exp {
		if x.kind != 'n' && x.f == *f {
			rt.Fail(s.ingress(), "frame-twice", "%s delivered audio accepted at %v a second time", s.name, time.Duration(x.at))
			return false
		}
	}
	rt.Fail(s.ingress(), "frame-invented", "%s delivered a frame that matches no datagram: %v", s.name, f[:24])
	return false
}

func (s *rsess) ingress() []string {
	if s.e.k.Hostile > 0 || s.e.k.Corrupt > 0 {
		return []string{"C17", "C01"}
	}
	return []string{"C17"}
}

func (s *rsess) close() {
	if s.rs == nil {
		return
	}
	again := s.closed
	if s.closing && !s.closed {
		return // in progress
	}
	s.closing = true
	if !again {
		s.closeAt = rt.Now()
	}
	rt.Stat("op.close_session")
	after := F(400)
	rt.Note("app", 'c', b2int(after), func() string {
		return fmt.Sprintf("%s closes (after error: %v, again: %v)", s.name, after, again)
	})
	if after {
		s.rs.CloseAfterError()
	} else {
		s.rs.Close()
	}
	if again {
		return
	}
	s.closed = true
	if l := s.e.w.OpenSocks(s.name); len(l) != 0 {
		rt.Fail([]string{"C18"}, "socket-open", "%s: the socket is open after closing", s.name)
		return
	}
	if d := time.Duration(rt.Now() - s.closeAt); d > time.Second && !s.e.froze {
		rt.Fail([]string{"C18"}, "close-slow", "%s: closing took %v", s.name, d)
		return
	}
	rt.After(20*time.Millisecond, func() {
		if !s.e.froze && !rt.Over() {
			s.gone()
		}
	})
}

func b2int(b bool) int {
	if b {
		return 1
	}
	return 0
}

// gone checks that nothing is left of a closed session.
func (s *rsess) gone() {
	if a := rt.Alive(s.name); len(a) > 0 {
		rt.Fail([]string{"C18"}, "receiver-left", "%s is closed but its tasks are still there: %v", s.name, a)
	}
}

// check looks at a session once nothing happens any more.
func (s *rsess) check() {
	if s.rs == nil || s.idle {
		return
	}
	if s.broke && !s.closing && s.errs != 1 && len(s.held) == 0 {
		rt.Fail([]string{"C18"}, "error-lost", "%s: its socket failed but the application got %d errors", s.name, s.errs)
		return
	}
	if s.closing && !s.closed {
		rt.Fail([]string{"C18", "C01"}, "close-hangs", "%s: closing never returned (asked at %v); its tasks: %v %v", s.name, time.Duration(s.closeAt), rt.Alive(s.name), rt.Alive("app-"+s.name))
		return
	}
	if s.closed {
		s.gone()
		return
	}
	if s.broke {
		return
	}
	for _, x := range s.exp[s.next:] {
		if x.kind == 'd' {
			rt.Fail(s.ingress(), "frame-lost", "%s: audio accepted at %v from %s was never delivered; its tasks: %v", s.name, time.Duration(x.at), x.src, rt.Alive(s.name))
			return
		}
	}
}

// Ingress.

// audioOf tells what a session is to make of a datagram.
func audioOf(b []byte) *rexp {
	x := &rexp{kind: 'n'}
	if len(b) < 12 || b[0]>>6 != 2 || b[1]&0x7f != 0 {
		return x
	}
	off := 12 + 4*int(b[0]&15)
	kind := byte('d')
	if b[0]&0x10 != 0 {
		// Header extensions aren't supported; getting them right is fine.
		kind = 'o'
		if len(b) < off+4 {
			return x
		}
		off += 4 + 4*(int(b[off+2])<<8|int(b[off+3]))
	}
	end := len(b)
	if b[0]&0x20 != 0 {
		n := int(b[end-1])
		if n == 0 {
			return x
		}
		end -= n
	}
	if end-off != 160 {
		return x
	}
	for i := range x.f {
		x.f[i] = ulawDec(b[off+i])
	}
	x.kind = kind
	return x
}

func (e *rEnv) onAccept(c *snet.UDPConn, p *snet.Packet) {
	s := e.by[c.Owner]
	if s == nil || s.conn != c {
		return
	}
	x := audioOf(p.Data)
	x.at, x.src = rt.Now(), p.Src
	switch x.kind {
	case 'd':
		rt.Stat("op.audio_accepted")
	case 'n':
		rt.Stat("op.other_accepted")
	case 'o':
		rt.Stat("op.extension_accepted")
	}
	s.exp = append(s.exp, x)
}

// packet makes an RTP packet around a payload.
func (p *rpeer) packet(pt byte, payload []byte) []byte {
	h := make([]byte, 12)
	h[0] = 0x80
	h[1] = pt
	if F(100) {
		h[1] |= 0x80
	}
	p.seq++
	p.ts += uint32(len(payload))
	binary.BigEndian.PutUint16(h[2:], p.seq)
	binary.BigEndian.PutUint32(h[4:], p.ts)
	binary.BigEndian.PutUint32(h[8:], p.ssrc)
	if F(80) {
		n := 1 + W(15)
		h[0] |= byte(n)
		cs := make([]byte, 4*n)
		noise(cs)
		h = append(h, cs...)
	}
	h = append(h, payload...)
	if F(80) {
		n := 1 + W(255)
		h[0] |= 0x20
		pad := make([]byte, n)
		noise(pad)
		pad[n-1] = byte(n)
		h = append(h, pad...)
	}
	return h
}

func ulawNoise() []byte {
	b := make([]byte, 160)
	noise(b)
	return b
}

func (p *rpeer) audio(s *rsess) {
	p.conn.SendFrom(s.addr(p.ap.Addr()), p.packet(0, ulawNoise()))
}

// stream is a conversation, or what's heard of it.
func (e *rEnv) stream(s *rsess) {
	n := int(e.k.Horizon / (20 * time.Millisecond))
	both := W(3)
	q := e.peerFor(s)
	for i := 0; i < n; i++ {
		rt.After(time.Duration(i)*20*time.Millisecond, func() {
			if rt.Over() {
				return
			}
			if both != 0 {
				s.do(func() { s.sendFrame() })
			}
			if both != 1 && q != nil && s.conn.IsOpen() {
				q.audio(s)
			}
		})
	}
	rt.Stat("op.long_stream")
}

// other sends something that isn't plain audio.
func (p *rpeer) other(s *rsess) {
	var b []byte
	switch W(12) {
	case 0: // telephone event
		b = p.packet(101, []byte{byte(W(17)), 0x86, 1, 0x90})
	case 1: // another codec
		b = p.packet(byte(pick(8, 9, 18, 13, 96, 101, 127, 1)), ulawNoise())
	case 2: // not 20 ms
		n := pick(0, 80, 159, 161, 240, 320, 1, 1400, 12, 172)
		x := make([]byte, n)
		noise(x)
		b = p.packet(0, x)
	case 3: // RTCP
		b = make([]byte, 28)
		noise(b)
		b[0], b[1] = 0x81, byte(200+W(5))
	case 4: // STUN, keep-alive
		b = []byte([]string{"", "\r\n\r\n", "\x00", "\x00\x01\x00\x00\x21\x12\xa4\x42abcdefghijkl"}[W(4)])
	case 5: // another version
		b = p.packet(0, ulawNoise())
		b[0] = b[0]&0x3f | byte(pick(0, 1, 3)<<6)
	case 6: // header extension
		x := make([]byte, 4+4*W(4))
		noise(x)
		binary.BigEndian.PutUint16(x[2:], uint16(len(x)/4-1))
		if F(300) {
			x[3] = byte(W(256))
		}
		b = p.packet(0, nil)
		pad := b[12+4*int(b[0]&15):]
		b = append(append(append([]byte(nil), b[:len(b)-len(pad)]...), append(x, ulawNoise()...)...), pad...)
		b[0] |= 0x10
	case 7: // lies about padding
		b = p.packet(0, ulawNoise())
		b[0] |= 0x20
		b[len(b)-1] = byte(pick(0, 1, 160, 161, 172, 173, 200, 255))
	case 8: // lies about contributing sources
		b = p.packet(0, ulawNoise())
		b[0] = b[0]&0xf0 | byte(W(16))
	case 9: // cut
		b = p.packet(0, ulawNoise())
		b = b[:W(len(b))]
	case 10: // huge
		b = make([]byte, pick(1500, 2047, 2048, 2049, 4000, 65507))
		noise(b)
		b[0], b[1] = byte(pick(0x80, 0xa0, 0xaf, 0x90)), 0
	case 11: // contributing sources or padding and nothing else
		b = p.packet(0, nil)
		b[0] |= byte(pick(0x20, 0x0f, 0x2f, 0x30))
	}
	rt.Stat("op.other_datagram")
	p.conn.SendFrom(s.addr(p.ap.Addr()), b)
}

func (p *rpeer) hostile(s *rsess) {
	b := p.packet(byte(pick(0, 0, 101, W(128))), ulawNoise())
	switch W(3) {
	case 0:
		b = nasty(b)
	case 1:
		b = make([]byte, W(400))
		noise(b)
		if len(b) > 1 && F(600) {
			b[0], b[1] = 0x80|b[0]&0x3f, b[1]&0x80
		}
	case 2:
		for n := 1 + W(3); n > 0; n-- {
			b[W(14)] = byte(W(256))
		}
	}
	rt.Stat("fault.hostile_datagram")
	p.conn.SendFrom(s.addr(p.ap.Addr()), b)
}

// Egress.

func (e *rEnv) onWrite(c *snet.UDPConn, dst netip.AddrPort, b []byte, err error) {
	if c.Handler != nil {
		return
	}
	if s := e.send[rt.Cur()]; s != nil {
		s.writes = append(s.writes, twrite{c, dst, append([]byte(nil), b...), err})
		return
	}
	rt.Fail([]string{"C15"}, "unprompted", "datagram of %d bytes sent to %s from %s without anybody asking", len(b), dst, c.Local())
}

// sending runs something that sends and returns what got out.
func (s *rsess) sending(what string, fn func() error) ([]twrite, error) {
	rt.Note("app", 's', 0, func() string { return s.name + " sends " + what })
	x := &rsend{}
	g := rt.Cur()
	s.e.send[g] = x
	err := fn()
	delete(s.e.send, g)
	return x.writes, err
}

// quietly tells whether nothing may be sent, and checks that.
func (s *rsess) quietly(prop, what string, w []twrite, err error, had bool) bool {
	if had && !s.closed {
		return false
	}
	if len(w) != 0 {
		rt.Fail([]string{prop}, "sent-anyway", "%s: %s was sent to %s (peer: %v, closed: %v)", s.name, what, w[0].dst, had, s.closed)
	} else if err != nil {
		rt.Fail([]string{prop}, "pointless-error", "%s: %s failed (peer: %v, closed: %v): %v", s.name, what, had, s.closed, err)
	}
	return true
}

func (s *rsess) sendFrame() {
	var f rtp.Frame
	switch W(3) {
	case 0:
		noise16(&f)
	case 1:
		for i := range f {
			f[i] = int16(pick(0, 1, -1, 32767, -32768, 32635, -32635, 100))
			if i > 8 {
				f[i] = f[i-1] / 2
			}
		}
	case 2:
	}
	orig := f
	pay := make([]byte, 160)
	for i := range f {
		pay[i] = ulawEnc(f[i])
	}
	rt.Stat("op.send_frame")
	s.one("a frame", 0, pay, 160, func() error { return s.rs.Send(&f) })
	if f != orig {
		rt.Fail([]string{"C15"}, "frame-touched", "%s: Send changed the application's frame", s.name)
	}
}

func noise16(f *rtp.Frame) {
	b := make([]byte, 320)
	noise(b)
	for i := range f {
		f[i] = int16(binary.BigEndian.Uint16(b[2*i:]))
	}
}

func (s *rsess) sendRaw() {
	pt := byte(pick(0, 8, 9, 101, 127, W(128)))
	n := pick(160, 20, 0, 33, 240, 1400, 1488, 1489, W(3000))
	if F(20) {
		n = 66000
	}
	buf := make([]byte, n+40)
	noise(buf)
	orig := append([]byte(nil), buf...)
	data := buf[:n]
	samps := []uint32{160, 240, 0, 1, 480, 1 << 31, 1<<32 - 1}[W(7)]
	rt.Stat("op.send_raw")
	s.one(fmt.Sprintf("a raw packet (type %d, %d bytes, %d samples)", pt, n, samps), pt, orig[:n], samps, func() error { return s.rs.SendRaw(pt, data, samps) })
	if !bytes.Equal(buf, orig) {
		rt.Fail([]string{"C15"}, "data-touched", "%s: SendRaw changed the application's data", s.name)
	}
}

// one checks the sending of one packet.
func (s *rsess) one(what string, pt byte, pay []byte, samps uint32, fn func() error) {
	if s.closing && !s.closed {
		return
	}
	had, peer := s.peer.IsValid(), s.peer
	w, err := s.sending(what, fn)
	if rt.Over() || s.quietly("C15", what, w, err, had) {
		return
	}
	fail := func(key, f string, a ...any) {
		rt.Fail([]string{"C15"}, key, "%s: %s: %s", s.name, what, fmt.Sprintf(f, a...))
	}
	if len(w) != 1 {
		fail("not-one", "%d datagrams were sent, error %v", len(w), err)
		return
	}
	x := w[0]
	if (x.err != nil) != (err != nil) {
		fail("send-error", "sending ended with %v, reported was %v", x.err, err)
		return
	}
	if x.conn != s.conn || x.dst != peer {
		fail("send-where", "sent to %s from %s, the peer is %s", x.dst, x.conn.Local(), peer)
		return
	}
	h, ok := s.header(x.b, pt, fail)
	if !ok {
		return
	}
	if h.mark {
		fail("marked", "the packet is marked")
		return
	}
	if !bytes.Equal(x.b[12:], pay) {
		i := 0
		for i < len(pay) && 12+i < len(x.b) && x.b[12+i] == pay[i] {
			i++
		}
		fail("payload", "the payload of %d bytes differs from the %d given, first at %d", len(x.b)-12, len(pay), i)
		return
	}
	if !s.follows(h, fail) {
		return
	}
	next := []rpos{{seq: h.seq + 1, ts: h.ts + samps}}
	if x.err != nil {
		// Whether a packet that couldn't be sent counts is not laid down.
		next = append(next, rpos{seq: h.seq, ts: h.ts}, rpos{seq: h.seq + 1, ts: h.ts}, rpos{seq: h.seq, ts: h.ts + samps})
	}
	s.any, s.pos = false, next
	s.lost(x.err)
}

type rhead struct {
	mark bool
	seq  uint16
	ts   uint32
}

func (s *rsess) lost(err error) {
	if err != nil {
		rt.Stat("op.send_failed")
	}
}

func (s *rsess) header(b []byte, pt byte, fail func(string, string, ...any)) (h rhead, ok bool) {
	if len(b) < 12 {
		fail("short", "a packet of %d bytes", len(b))
		return
	}
	if b[0] != 0x80 {
		fail("first-byte", "first byte is %#x", b[0])
		return
	}
	if b[1]&0x7f != pt {
		fail("payload-type", "payload type %d instead of %d", b[1]&0x7f, pt)
		return
	}
	ssrc := binary.BigEndian.Uint32(b[8:])
	if s.known && ssrc != s.ssrc {
		fail("ssrc", "source %#x instead of %#x", ssrc, s.ssrc)
		return
	}
	s.known, s.ssrc = true, ssrc
	return rhead{b[1]&0x80 != 0, binary.BigEndian.Uint16(b[2:]), binary.BigEndian.Uint32(b[4:])}, true
}

// follows checks a packet's numbers against what was sent before.
func (s *rsess) follows(h rhead, fail func(string, string, ...any)) bool {
	if s.any {
		return true
	}
	for _, p := range s.pos {
		d := h.ts - p.ts
		if p.seq == h.seq && (p.later == 0 && d == 0 || p.later != 0 && d >= p.later && d < 1<<31) {
			return true
		}
	}
	fail("numbering", "sequence number %d and timestamp %d don't follow; acceptable: %+v", h.seq, h.ts, s.pos)
	return false
}

var digits = "0123456789*#ABCDabcd!"

func digitCode(d byte) (byte, bool) {
	switch {
	case d >= '0' && d <= '9':
		return d - '0', true
	case d == '*':
		return 10, true
	case d == '#':
		return 11, true
	case d >= 'A' && d <= 'D':
		return d - 'A' + 12, true
	case d >= 'a' && d <= 'd':
		return d - 'a' + 12, true
	case d == '!':
		return 16, true
	}
	return 0, false
}

func (s *rsess) sendDTMF(d byte) {
	if s.closing && !s.closed {
		return
	}
	what := fmt.Sprintf("digit %q", string(rune(d)))
	had, peer := s.peer.IsValid(), s.peer
	rt.Stat("op.send_dtmf")
	w, err := s.sending(what, func() error { return s.rs.SendDTMF(d) })
	if rt.Over() {
		return
	}
	fail := func(key, f string, a ...any) {
		rt.Fail([]string{"C16"}, key, "%s: %s: %s", s.name, what, fmt.Sprintf(f, a...))
	}
	code, ok := digitCode(d)
	if !ok {
		rt.Stat("op.send_no_digit")
		if len(w) != 0 {
			fail("no-digit-sent", "%d packets were sent", len(w))
		} else if err == nil && had && !s.closed {
			fail("no-digit-accepted", "no error")
		}
		return
	}
	if s.quietly("C16", what, w, err, had) {
		return
	}
	failed := false
	for _, x := range w {
		failed = failed || x.err != nil
	}
	if failed != (err != nil) {
		fail("dtmf-error", "sending failed: %v, reported: %v", failed, err)
		return
	}
	if len(w) < 4 && !failed {
		fail("dtmf-packets", "only %d packets", len(w))
		return
	}
	var first rhead
	sent, ends, tries := 0, 0, 0
	var last rhead
	var dur, full uint16
	seqs := map[uint16]bool{}
	for i, x := range w {
		if x.conn != s.conn || x.dst != peer {
			fail("dtmf-where", "packet %d sent to %s from %s, the peer is %s", i, x.dst, x.conn.Local(), peer)
			return
		}
		h, ok := s.header(x.b, 101, fail)
		if !ok {
			return
		}
		if len(x.b) != 16 {
			fail("dtmf-size", "packet %d has %d bytes", i, len(x.b))
			return
		}
		v := x.b[12:]
		du := binary.BigEndian.Uint16(v[2:])
		end := v[1]&0x80 != 0
		if i == 0 {
			first = h
			if !s.follows(h, fail) {
				return
			}
		} else {
			if h.ts != first.ts {
				fail("dtmf-timestamp", "packet %d has timestamp %d, the first %d", i, h.ts, first.ts)
				return
			}
			if !seqs[h.seq] {
				fail("dtmf-sequence", "packet %d has sequence number %d after %d", i, h.seq, last.seq)
				return
			}
		}
		if h.mark != (sent == 0) && !(sent == 0 && tries > 0) {
			fail("dtmf-mark", "packet %d marked: %v", i, h.mark)
			return
		}
		if v[0] != code {
			fail("dtmf-code", "packet %d has event code %d, not %d", i, v[0], code)
			return
		}
		if v[1]&0x40 != 0 {
			fail("dtmf-reserved", "packet %d has the reserved bit set", i)
			return
		}
		if i > 0 && v[1]&0x3f != w[0].b[13]&0x3f {
			fail("dtmf-volume", "packet %d has volume %d, the first %d", i, v[1]&0x3f, w[0].b[13]&0x3f)
			return
		}
		if du == 0 {
			fail("dtmf-duration", "packet %d has no duration", i)
			return
		}
		if end {
			if ends == 0 {
				full = du
			}
			ends++
			if du != full || du < dur || ends == 1 && du == dur {
				fail("dtmf-end", "packet %d ends the event with duration %d, after %d (full: %d)", i, du, dur, full)
				return
			}
		} else {
			if ends > 0 || du <= dur {
				fail("dtmf-duration", "packet %d has duration %d after %d, end packets so far: %d", i, du, dur, ends)
				return
			}
			dur = du
		}
		tries++
		last = h
		seqs = map[uint16]bool{h.seq + 1: true}
		if x.err == nil {
			sent++
		} else {
			seqs[h.seq] = true
			dur-- // it may be tried again
		}
	}
	if !failed && ends != 3 {
		fail("dtmf-end", "%d end packets", ends)
		return
	}
	s.any = false
	s.pos = nil
	later := uint32(full)
	if later == 0 {
		later = 1
	}
	for q := range seqs {
		s.pos = append(s.pos, rpos{seq: q, ts: first.ts, later: later})
		if sent == 0 {
			s.pos = append(s.pos, rpos{seq: q, ts: first.ts})
		}
	}
	if failed {
		s.lost(err)
	} else {
		rt.Stat("op.dtmf_complete")
	}
}

func (e *rEnv) op(op int) {
	if rt.Over() {
		return
	}
	if op == roNew {
		rt.GoOn("new", "harness", "harness", func() {
			if len(e.list) < 12 {
				e.newSession()
			}
		})
		return
	}
	if op == roNil {
		var none *rtp.Session
		rt.GoOn("nil", e.hosts[0].Name, "nil", func() {
			rt.Stat("op.nil_session")
			none.Close()
			none.CloseAfterError()
			var f rtp.Frame
			if none.Send(&f) != nil || none.SendRaw(0, nil, 0) != nil || none.SendDTMF('1') != nil {
				rt.Fail([]string{"C15", "C16"}, "pointless-error", "a nil session reports errors")
			}
		})
		return
	}
	if len(e.list) == 0 {
		return
	}
	s := e.list[W(len(e.list))]
	switch op {
	case roFrame:
		n := 1
		if F(300) {
			n = 1 + W(20)
		}
		s.do(func() {
			for i := 0; i < n && !rt.Over(); i++ {
				s.sendFrame()
			}
		})
	case roRaw:
		s.do(s.sendRaw)
	case roDTMF:
		n := 1 + W(4)*b2int(F(400))
		s.do(func() {
			for i := 0; i < n && !rt.Over(); i++ {
				s.sendDTMF(digits[W(len(digits))])
				if F(300) && !rt.Over() {
					s.sendFrame()
				}
			}
		})
	case roBad:
		d := byte(W(256))
		if F(300) {
			d = "eE/:@ \x00\x10\xff"[W(9)]
		}
		s.do(func() { s.sendDTMF(d) })
	case roPeer:
		s.do(func() {
			if s.closing && !s.closed {
				return
			}
			if F(200) {
				s.rs.Peer, s.peer = nil, netip.AddrPort{}
				return
			}
			s.setPeer()
		})
	case roAudio, roBurst:
		if !s.conn.IsOpen() && !F(100) {
			return
		}
		n := 1
		if op == roBurst {
			n = 2 + W(20)
			if F(50) {
				n = 70
			}
		}
		for ; n > 0; n-- {
			p := e.peerFor(s)
			switch {
			case p == nil:
			case F(e.k.Hostile):
				p.hostile(s)
			case F(e.k.Odd):
				p.other(s)
			default:
				rt.Stat("op.peer_audio")
				p.audio(s)
			}
		}
	case roClose:
		s.do(func() {
			s.close()
			if s.closed && F(300) {
				s.close()
			}
		})
	case roBreak:
		if !s.broke && s.conn.IsOpen() {
			s.broke = true
			s.conn.Kill([]error{syscall.EIO, syscall.ENOMEM, syscall.ENETDOWN, syscall.ENOTCONN}[W(4)])
		}
	case roFreeze:
		h := s.host.Name
		if e.frozen[h] {
			return
		}
		e.frozen[h], e.froze = true, true
		rt.Freeze(h)
		rt.After(time.Duration(1+W(int(500*time.Millisecond))), func() {
			if e.frozen[h] {
				e.frozen[h] = false
				rt.Thaw(h)
			}
		})
	case roHead:
		s.do(func() {
			if s.closing && !s.closed {
				return
			}
			s.renumber()
		})
	}
	e.states[fmt.Sprint(len(e.list), s.dual, s.idle, s.closing, s.closed, s.broke, s.down, len(s.held), s.any, len(s.pos), s.rs.Peer != nil, s.conn.Queued() > 0, s.next < len(s.exp))] = true
}

func rbase() *rKnobs {
	k := &rKnobs{
		Fam: weighted([]int{60, 15, 25}), Sessions: 1 + W(2), Peers: 1 + W(3), Horizon: time.Duration(1+W(3000)) * time.Millisecond,
		Ops: pick(5, 15, 40, 80), OpW: []int{14, 8, 8, 3, 3, 20, 3, 1, 0, 1, 1, 0, 0},
		Dual: 400, Hold: pick(0, 200, 600), Lazy: pick(0, 100, 300), Swap: 50, NoPeer: 80, Header: 400, Odd: 200,
		InUse: pick(0, 0, 200), Explicit: 100,
		Lat: time.Duration(W(20)) * time.Millisecond,
	}
	if F(300) {
		k.Loss, k.Dup, k.Reorder = W(200), W(300), W(300)
		k.Jitter = time.Duration(W(30)) * time.Millisecond
	}
	if F(4) {
		k.Long, k.Horizon = true, time.Duration(10+W(20))*time.Second
	} else if F(30) {
		k.Horizon *= time.Duration(pick(10, 100, 1000))
	}
	return k
}

func rtps(tune func(k *rKnobs)) func() []string {
	return func() []string {
		k := rbase()
		if tune != nil {
			tune(k)
		}
		return sorted(rScenario(k).states)
	}
}

func init() {
	profile("rtp", rtps(nil))
	profile("rsend", rtps(func(k *rKnobs) {
		k.OpW = []int{40, 25, 6, 1, 8, 3, 1, 1, 0, 0, 3, 0, 1}
		if F(100) {
			k.Sessions = 4
		}
		k.WriteErr = pick(0, 0, 100, 400)
		k.Ops = pick(10, 40, 120)
	}))
	profile("rdtmf", rtps(func(k *rKnobs) {
		k.OpW = []int{10, 6, 40, 10, 4, 3, 1, 1, 0, 0, 3, 0, 1}
		k.WriteErr = pick(0, 0, 60, 200)
	}))
	profile("rrecv", rtps(func(k *rKnobs) {
		k.OpW = []int{3, 1, 1, 0, 1, 50, 10, 0, 0, 2, 0, 0, 0}
		k.Odd, k.Hold, k.Lazy = pick(100, 300, 600), pick(0, 300, 800), pick(0, 200, 500)
		k.Swap = pick(0, 100, 500)
	}))
	profile("rclose", rtps(func(k *rKnobs) {
		k.OpW = []int{8, 3, 3, 1, 2, 25, 6, 8, 5, 1, 0, 3, 1}
		k.Hold, k.Lazy, k.Idle = pick(0, 300, 800), pick(0, 200, 600), 150
		k.Sessions = 1 + W(4)
	}))
	profile("rbind", rtps(func(k *rKnobs) {
		k.OpW = []int{4, 1, 1, 0, 1, 4, 1, 4, 0, 0, 0, 40, 0}
		k.InUse, k.BindErr = pick(0, 300, 700, 900, 950, 1000), pick(0, 50, 300)
		k.Explicit, k.Sessions = 200, 3+W(6)
	}))
	profile("rhostile", rtps(func(k *rKnobs) {
		k.OpW = []int{4, 2, 2, 1, 1, 40, 10, 1, 1, 1, 0, 0, 0}
		k.Hostile, k.Odd, k.Corrupt = pick(300, 700), 500, W(400)
	}))
}
