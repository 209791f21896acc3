package main

import (
	"errors"
	"fmt"
	"net"
	"net/netip"
	"sort"
	"strings"
	"syscall"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zsim/rt"
	"github.com/jart/gosip/zsim/snet"
)

// Call is a phone call under observation: a real dialog, an application reading
// its channels, everything it was seen to do since the last quiescent moment,
// and the states the reference model may be in.
type Call struct {
	e      *Env
	name   string // task group
	host   *snet.Host
	spec   *CallSpec
	dl     *dialog.Dialog
	obs    []*Obs
	log    []*Obs
	qs     []*sockQ
	late   bool // to be hung up as soon as it has been made
	hang   int  // hangups asked for and not yet accounted for
	hangN  int
	states []*mst
	slow   func() // delays the application between notifications
	busy   bool   // application is not reading right now
	closed bool
	done   bool // model ended and resources were checked
	branch map[string]bool
	trans  map[string]string // branch -> transaction
	taint  map[string]bool
	sends  int
	invs   int
	answer bool // application saw the answered state
	finals int
	endT   int64
	hangT  int64
	loose  bool
	pinged bool
	rcseq  int
	rlast  int
	reinv  map[int]*SM
	weak   bool // only crash-like failures count
	med    *phone
	ask    chan bool // hangups come from within the event loop if not nil
	asking bool      // event loop is stuck asking
}

// Obs is something the outside world sees a call do.
type Obs struct {
	K      byte // 's'end, 'n'otification, 'p'eer, 'e'rror, 'c'losed
	T      int64
	M      *SM
	Perr   error
	Src    netip.AddrPort
	Dst    netip.AddrPort
	Wild   bool
	Werr   error
	Fatal  bool
	Fresh  bool // branch never seen before
	State  int
	Peer   string
	addr   *net.UDPAddr
	Err    error
	Carry  *cmsg // what a ResponseError carries
	CPorts []netip.AddrPort
}

func (o *Obs) String() string {
	switch o.K {
	case 's':
		w := ""
		if o.Werr != nil {
			w = " (write failed: " + o.Werr.Error() + ")"
		}
		h := "unparsable"
		if o.M != nil {
			h = snet.Head([]byte(o.M.Raw))
		}
		return fmt.Sprintf("sent %s from %s to %s%s", h, o.Src, o.Dst, w)
	case 'n':
		return "notified state " + stName(o.State)
	case 'p':
		return "notified peer " + o.Peer
	case 'e':
		return fmt.Sprintf("notified error %q", o.Err)
	}
	return "closed its channels"
}

func stName(n int) string {
	switch n {
	case dialog.Proceeding:
		return "proceeding"
	case dialog.Ringing:
		return "ringing"
	case dialog.Answered:
		return "answered"
	case dialog.Hangup:
		return "hangup"
	}
	return fmt.Sprint(n)
}

// sockQ holds what happened at one of the call's sockets, in order.
type sockQ struct {
	conn *snet.UDPConn
	wild bool
	port uint16
	it   []*stim
	base int // datagrams accepted before this batch
}

type stim struct {
	m       *SM
	icmp    bool
	fatal   bool
	src     netip.AddrPort
	tags    []string
	payload string
}

func (s *stim) String() string {
	switch {
	case s.icmp:
		return "ICMP refusal"
	case s.fatal:
		return "socket error"
	}
	return "datagram " + snet.Head([]byte(s.m.Raw)) + " from " + s.src.String()
}

// Env is a simulated world with calls in it.
type Env struct {
	w        *snet.World
	calls    map[string]*Call
	list     []*Call
	dialFail map[string]bool
	bindFail bool
	branches map[string]string // who used a branch first, for the whole world
	callids  map[string]string
	frozen   map[string]bool
	interval int64
	max      int
	tagging  bool
	uas      map[string]*UAS
	extra    func() // further checks at quiescent moments
	props    func(g *rt.G) []string
	peers    []*UAS
	atQuiet  []func()
	onWrite  func(c *Call, o *Obs)
	onNote   func(c *Call, o *Obs)
	onAccept func(c *Call)
	mstates  map[string]bool
	tags     map[string]string // From tag -> call
	ids      map[string]bool
	targets  []URI // where redirects may lead
	media    *rEnv // calls come with sound
}

func NewEnv() *Env {
	e := &Env{w: snet.NewWorld(), calls: map[string]*Call{}, dialFail: map[string]bool{}, branches: map[string]string{}, callids: map[string]string{}, tags: map[string]string{}, ids: map[string]bool{}, frozen: map[string]bool{}, uas: map[string]*UAS{}, mstates: map[string]bool{}}
	w := e.w
	w.OnWrite = func(c *snet.UDPConn, dst netip.AddrPort, b []byte, err error) {
		if call := e.calls[c.Owner]; call != nil {
			call.onWrite(c, dst, b, err)
		}
	}
	w.OnAccept = func(c *snet.UDPConn, p *snet.Packet) {
		if call := e.calls[c.Owner]; call != nil {
			call.onAccept(c, p)
		}
	}
	w.OnPending = func(c *snet.UDPConn, err error, byWrite bool) {
		if call := e.calls[c.Owner]; call != nil && !byWrite {
			call.onReadErr(c, err)
		}
	}
	w.DialErr = func(h *snet.Host, addr string) error {
		if e.dialFail[addr] {
			return syscall.ENETUNREACH
		}
		return nil
	}
	w.BindErr = func(h *snet.Host, addr string) error {
		if e.bindFail && h.Name == "ua" {
			return syscall.EACCES
		}
		return nil
	}
	return e
}

// made takes note of an identifier the library must have made.
func (e *Env) made(kind, v string) {
	if !e.ids[kind+v] {
		e.ids[kind+v] = true
		short(kind, v, "a call")
		guessable(len(e.ids), v)
	}
}

// NewCall starts a dialog on a host.
func (e *Env) NewCall(name string, host *snet.Host, spec *CallSpec) *Call {
	c := &Call{e: e, name: name, host: host, spec: spec, branch: map[string]bool{}, trans: map[string]string{}, taint: map[string]bool{}, loose: spec.Loose, reinv: map[int]*SM{}}
	c.states = []*mst{{reqDl: -1, respDl: -1, ruri: spec.RURI, route: spec.Route}}
	e.calls[name] = c
	e.list = append(e.list, c)
	if e.media != nil {
		c.openPhone()
	}
	inv := spec.invite()
	restore := rt.SetHost(host.Name, name)
	dl, err := dialog.NewDialog(inv)
	restore()
	if err != nil {
		rt.Fail([]string{"C02"}, "newdialog", "NewDialog failed: %v", err)
		return c
	}
	c.dl = dl
	if c.med == nil && F(300) {
		c.ask = make(chan bool, 4)
	}
	loop := c.app
	if c.med != nil {
		loop = c.phoneLoop
	}
	rt.GoOn("app-"+name, host.Name, "app-"+name, loop)
	if c.late {
		c.HangUp()
	}
	return c
}

// app is the caller: it reads whatever the call has to say.
func (c *Call) app() {
	e, s, p := c.dl.OnErr, c.dl.OnState, c.dl.OnPeer
	for e != nil || s != nil || p != nil {
		re, rs, rp, ra := rt.R(e), rt.R(s), rt.R(p), rt.R((<-chan bool)(c.ask))
		o := &Obs{}
		switch rt.Select(false, re, rs, rp, ra) {
		case 3:
			c.hangNow()
		case 0:
			if !re.OK {
				e = nil
			} else {
				o.errIs(re.V)
			}
		case 1:
			if !rs.OK {
				s = nil
			} else {
				o.K, o.State = 'n', rs.V
			}
		case 2:
			if !rp.OK {
				p = nil
			} else {
				o.peerIs(rp.V)
			}
		}
		if o.K != 0 {
			c.note(o)
			if c.slow != nil {
				c.busy = true
				c.slow()
				c.busy = false
			}
		}
	}
	c.ended()
}

func (o *Obs) peerIs(a *net.UDPAddr) {
	o.K, o.Peer, o.addr = 'p', "nil", a
	if a != nil {
		o.Peer = a.String()
	}
}

func (o *Obs) errIs(err error) {
	o.K, o.Err = 'e', err
	var x *sip.ResponseError
	if errors.As(err, &x) && x.Msg != nil {
		o.Carry = canonMsg(x.Msg)
	}
}

// ended is called when all channels are closed, so nothing may be left open.
func (c *Call) ended() {
	if l := c.e.w.OpenSocks(c.name); len(l) > 0 {
		rt.Fail([]string{"C02"}, "open-at-close", "call %s closed its channels while socket %s is still open", c.name, l[0].Local())
	}
	c.closed = true
	c.endT = rt.Now()
	for _, o := range c.log {
		if o.addr != nil && o.addr.String() != o.Peer {
			rt.Fail([]string{"C11"}, "peer-changed", "call %s notified peer %s, which has turned into %s since", c.name, o.Peer, o.addr)
		}
	}
	c.note(&Obs{K: 'c'})
}

func (c *Call) note(o *Obs) {
	o.T = rt.Now()
	c.obs = append(c.obs, o)
	c.log = append(c.log, o)
	rt.Note("app", int(o.K), o.State, func() string { return c.name + " " + o.String() })
	switch {
	case o.K == 'n' && o.State == dialog.Answered:
		c.answer = true
	case o.K == 'e', o.K == 'n' && o.State == dialog.Hangup:
		c.finals++
	}
	if c.e.onNote != nil {
		c.e.onNote(c, o)
	}
}

func (c *Call) onWrite(conn *snet.UDPConn, dst netip.AddrPort, b []byte, err error) {
	o := &Obs{K: 's', T: rt.Now(), Dst: dst, Src: conn.Local(), Wild: conn.Wild(), Werr: err}
	o.M, o.Perr = parseSM(b)
	if err != nil && !errors.Is(err, syscall.ECONNREFUSED) {
		o.Fatal = true
	}
	if o.Perr == nil && c.med != nil {
		c.heard(o.M)
	}
	if o.Perr == nil {
		br := o.M.Via().Branch()
		o.Fresh = !c.branch[br]
		c.branch[br] = true
		if !o.M.Resp {
			if o.M.Method == "INVITE" {
				c.invs++
			}
		}
		if !o.M.Resp && !c.weak {
			if w := c.e.branches[br]; w != "" && w != c.name {
				rt.Fail([]string{"C20"}, "branch-shared", "calls %s and %s use the same branch %s", w, c.name, br)
			}
			c.e.branches[br] = c.name
			if c.spec.CallID == "" {
				if w := c.e.callids[o.M.CallID]; w != "" && w != c.name {
					rt.Fail([]string{"C20", "C21"}, "callid-shared", "calls %s and %s use the same Call-ID %s", w, c.name, o.M.CallID)
				}
				c.e.made("Call-ID", o.M.CallID)
			}
			c.e.callids[o.M.CallID] = c.name
			if tag := o.M.From.Tag(); c.spec.From == nil || c.spec.From.Tag() == "" {
				if w := c.e.tags[tag]; w != "" && w != c.name {
					rt.Fail([]string{"C20"}, "tag-shared", "calls %s and %s use the same From tag %s", w, c.name, tag)
				}
				c.e.tags[tag] = c.name
				c.e.made("tag", tag)
			}
			if o.M.Method != "CANCEL" && o.M.Method != "ACK" {
				if !strings.HasPrefix(br, "z9hG4bK") {
					rt.Fail([]string{"C20"}, "branch-cookie", "call %s uses branch %q", c.name, br)
				}
				x := fmt.Sprint(o.M.Method, o.M.CSeq, " to ", dst, " for ", o.M.RURI)
				if y, ok := c.trans[br]; ok && y != x {
					rt.Fail([]string{"C20"}, "branch-reused", "call %s uses branch %s for %s and for %s", c.name, br, y, x)
				}
				c.trans[br] = x
				c.e.made("branch", br)
			}
		}
	}
	for _, s := range c.e.w.OpenSocks(c.name) {
		o.CPorts = append(o.CPorts, s.Local())
	}
	if c.closed {
		rt.Fail([]string{"C02"}, "send-after-close", "call %s closed its channels and then %s", c.name, o.String())
	}
	c.sends++
	c.obs = append(c.obs, o)
	c.log = append(c.log, o)
	if c.e.onWrite != nil {
		c.e.onWrite(c, o)
	}
	if c.sends > 3000 {
		rt.Fail([]string{"C01", "C06", "C08"}, "send-storm", "call %s sent more than 3000 datagrams", c.name)
	}
	if c.invs > 400 {
		rt.Fail([]string{"C08", "C02"}, "invite-storm", "call %s sent more than 400 INVITEs", c.name)
	}
}

func (c *Call) queue(conn *snet.UDPConn) *sockQ {
	for _, q := range c.qs {
		if q.conn == conn {
			return q
		}
	}
	q := &sockQ{conn: conn, wild: conn.Wild(), port: conn.Local().Port(), base: conn.Reads}
	c.qs = append(c.qs, q)
	return q
}

func (c *Call) onAccept(conn *snet.UDPConn, p *snet.Packet) {
	m, err := parseAlien(p.Data)
	if err != nil {
		// Not for the model; the call has to ignore it.
		m = nil
	}
	q := c.queue(conn)
	s := &stim{m: m, src: p.Src}
	if m != nil {
		s.tags = c.e.stimTags(c, m)
	} else {
		s.tags = []string{"C01"}
		s.m = &SM{Raw: string(p.Data)}
		s.payload = "garbage"
	}
	q.it = append(q.it, s)
	if c.e.onAccept != nil {
		c.e.onAccept(c)
	}
}

func (c *Call) onReadErr(conn *snet.UDPConn, err error) {
	q := c.queue(conn)
	n := conn.Reads - q.base
	s := &stim{icmp: true}
	if !errors.Is(err, syscall.ECONNREFUSED) {
		s = &stim{fatal: true}
	}
	pos := 0
	for pos < len(q.it) && n > 0 {
		if q.it[pos].m != nil {
			n--
		}
		pos++
	}
	q.it = append(q.it[:pos:pos], append([]*stim{s}, q.it[pos:]...)...)
}

// Break makes the current sockets of the call fail.
func (c *Call) Break(wild bool) {
	for _, s := range c.e.w.OpenSocks(c.name) {
		if s.Wild() == wild && !s.PendingErr() {
			s.Break(syscall.ENOBUFS)
			return
		}
	}
}

// Refuse delivers an ICMP port unreachable to the call's socket.
func (c *Call) Refuse() {
	for _, s := range c.e.w.OpenSocks(c.name) {
		if !s.Wild() && !s.PendingErr() {
			s.Refuse()
			return
		}
	}
}

// HangUp asks the call to end. Channel has room for four.
func (c *Call) HangUp() {
	if c.dl == nil {
		c.late = true
		return
	}
	if c.hangN >= 4 {
		return
	}
	c.hangN++
	if c.hangT == 0 {
		c.hangT = rt.Now()
	}
	rt.Stat("op.hangup")
	rt.GoOn("hangup-"+c.name, c.host.Name, "app-"+c.name, func() {
		if c.ask != nil {
			rt.S_(c.ask).Send(true)
			return
		}
		c.hang++
		rt.Note("hangup", 0, 0, func() string { return c.name + " is asked to hang up" })
		rt.S_(c.dl.Hangup).Send(true)
	})
}

// hangNow hangs up from within the event loop.
func (c *Call) hangNow() {
	c.hang++
	rt.Note("hangup", 0, 0, func() string { return c.name + " hangs up" })
	c.asking = true
	rt.S_(c.dl.Hangup).Send(true)
	c.asking = false
}

func uniq(l []string) []string {
	m := map[string]bool{}
	var r []string
	for _, s := range l {
		for _, t := range strings.Fields(s) {
			if !m[t] {
				m[t] = true
				r = append(r, t)
			}
		}
	}
	sort.Strings(r)
	return r
}

// Observe runs the world until nothing happens anymore, checking at every
// quiescent moment that each call did what the model allows.
func (e *Env) Observe(until func() bool) {
	settle := true
	for !rt.Over() {
		more := true
		if settle {
			rt.Settle()
		} else {
			more = rt.Quiesce()
		}
		e.checkAll()
		if rt.Over() {
			return
		}
		l := e.atQuiet
		e.atQuiet = nil
		for _, f := range l {
			f()
		}
		if settle = len(l) > 0; settle {
			continue
		}
		if !more || until != nil && until() {
			return
		}
	}
}

func (e *Env) checkAll() {
	for _, c := range e.list {
		if rt.Over() {
			return
		}
		if e.frozen[c.host.Name] || c.busy {
			continue
		}
		if c.asking {
			rt.Fail([]string{"C03"}, "hangup-blocks", "call %s keeps its caller from going on after asking to hang up", c.name)
			return
		}
		c.check()
	}
	if e.extra != nil && !rt.Over() {
		e.extra()
	}
}
