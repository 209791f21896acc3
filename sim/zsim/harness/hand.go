package main

import (
	"fmt"
	"net/netip"
	"strings"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zsim/rt"
	"github.com/jart/gosip/zsim/snet"
)

// Calls an application runs itself over a transport, as example/echo2 does,
// with what NewRequest, NewAck, NewCancel, NewBye and NewResponse make.

type hand struct {
	t       *tpt
	p       *tpeer
	id      string
	invite  *sip.Msg
	before  *cmsg  // the INVITE once it was sent
	inv     *tsend // what became of it
	waiting map[string]bool
	every   time.Duration
	prov    bool
	hang    bool
	over    bool
	lost    bool // can't work for reasons that aren't the system's
	cancel  *sip.Msg
	bye     *sip.Msg
	lseq    int
	useSeq  bool
	answer  *sip.Msg // first 2xx
	acks    map[string]*sip.Msg
	ringing *sip.Msg // response to a re-INVITE
	side    *hside
}

// hside is what the remote party knows.
type hside struct {
	tag    string
	inv    *SM
	plan   []int // provisional responses
	final  int
	last   *SM
	done   *SM // the final response
	acked  bool
	bye    bool // got one
	own    *SM  // its own request
	ownOK  bool
	reACK  bool
	rr     []NA
	peers  []*tpeer
	src    netip.AddrPort
	cancel bool
}

func (e *tEnv) until() int64 { return int64(e.k.Horizon + 20*time.Second) }

// handCall starts one.
func (t *tpt) handCall() {
	e := t.e
	p := e.peerFor(t)
	if p == nil || t.broke {
		return
	}
	h := &hand{t: t, p: p, waiting: map[string]bool{}, acks: map[string]*sip.Msg{}, every: time.Duration(pick(500, 50, 400)) * time.Millisecond, useSeq: F(500)}
	to := NA{Display: pickS("", "Bob"), U: URI{Scheme: "sip", User: pickS("bob", ""), Host: p.ap.Addr().String(), Port: int(p.ap.Port())}}
	if to.U.Port == 5060 && F(500) {
		to.U.Port = 0
	}
	if F(200) {
		to.U.P = []Prm{{"user", "phone", true}}
	}
	if F(200) {
		to.P = []Prm{{"x-to", "you", true}}
	}
	var from *sip.Addr
	if F(500) {
		from = (&NA{Display: pickS("", "Al"), U: URI{Scheme: "sip", User: "al", Host: "home.example"}}).sip()
	}
	m := dialog.NewRequest(t.tp, "INVITE", to.sip(), from)
	h.invite, h.id = m, m.CallID
	if F(e.k.Routes) {
		var l []NA
		for n := some(3); n > 0; n-- {
			l = append(l, e.way(t))
		}
		m.Route = addrs(l)
	}
	if F(300) {
		m.Authorization = `Digest username="al", response="0123"`
	}
	if F(300) {
		m.ProxyAuthorization = `Digest username="al", response="4567"`
	}
	if F(600) {
		m.Payload = e.payload()
	}
	if F(100) {
		m.MaxForwards = pick(2, 3, 70)
	}
	e.hands[h.id] = h
	h.side = &hside{tag: fmt.Sprint("h", e.seq())}
	for n := W(4); n > 0; n-- {
		h.side.plan = append(h.side.plan, pick(100, 180, 183, 199))
	}
	h.side.final = pick(200, 200, 200, 200, 486, 404, 302, 503, 600, 0, 0)
	if h.side.final == 0 && len(h.side.plan) == 0 {
		h.side.plan = []int{180}
	}
	if F(e.k.Routes * 2) {
		for n := some(3); n > 0; n-- {
			h.side.rr = append(h.side.rr, e.way(t))
		}
	}
	rt.Stat("op.handmade_call")
	if h.inv = t.send(m, "INVITE of a handmade call", netip.AddrPort{}, false); h.inv == nil {
		h.lost = true
		return
	}
	h.lseq = m.CSeq
	h.before = canonMsg(m)
	h.wait("INVITE", m, h.inv)
	rt.After(time.Duration(W(int(e.k.Horizon))+W(2*int(2*time.Second))), func() { t.spawn("hangup", 0, h.hangup) })
}

// way is a hop that works.
func (e *tEnv) way(t *tpt) NA {
	p := e.peerFor(t)
	n := NA{U: URI{Scheme: "sip", User: pickS("", "px"), Host: p.ap.Addr().String(), Port: int(p.ap.Port())}}
	if !F(250) {
		n.U.P = append(n.U.P, loose())
	}
	if F(100) {
		n.P = append(n.P, P1("ftag", "x y"))
	}
	return n
}

// wait sends something again until it's answered.
func (h *hand) wait(what string, m *sip.Msg, s *tsend) {
	h.waiting[what] = true
	var next func()
	next = func() {
		if !h.waiting[what] || h.t.broke || rt.Over() || rt.Now() > h.t.e.until() {
			return
		}
		h.t.spawn("resend", 0, func() {
			h.t.again(m, s)
			if !rt.Over() {
				rt.After(h.every, next)
			}
		})
	}
	rt.After(h.every, next)
}

func (h *hand) bad(key, f string, a ...any) {
	rt.Fail([]string{"C23"}, key, "%s: handmade call %s: %s", h.t.name, h.id, fmt.Sprintf(f, a...))
}

// same reports what was changed by making something from it.
func (h *hand) same(what string) bool {
	if d := diff(canonMsg(h.invite), h.before); d != "" {
		h.bad("invite-changed", "%s changed the INVITE it was made for:%s", what, d)
		return false
	}
	return true
}

func (h *hand) hangup() {
	if h.over || h.lost || h.t.broke {
		return
	}
	h.hang = true
	switch {
	case h.answer != nil:
		h.sendBye()
	case h.prov && h.cancel == nil:
		h.cancel = dialog.NewCancel(h.invite)
		if !h.same("NewCancel") {
			return
		}
		s := h.t.send(h.cancel, "CANCEL of a handmade call", netip.AddrPort{}, false)
		if s == nil {
			return
		}
		rt.Stat("op.handmade_cancel")
		i := h.inv.c
		want := &want{start: "CANCEL" + i.start[len("INVITE"):], from: i.lists["from"], to: i.lists["to"], route: i.lists["route"], cseq: fmt.Sprint(h.invite.CSeq, " CANCEL"), via: &i.vias[0], dsts: h.inv.dsts}
		if h.check("CANCEL", s, want) {
			h.wait("CANCEL", h.cancel, s)
		}
	}
}

func (h *hand) sendBye() {
	if h.bye != nil || h.over {
		return
	}
	seq := &h.lseq
	if !h.useSeq {
		seq = nil
	}
	rt.Stat("op.handmade_bye")
	was, a := h.lseq, h.answer
	h.bye = dialog.NewBye(h.invite, a, seq)
	if h.useSeq && h.lseq != was+1 {
		h.bad("lseq", "NewBye turned sequence number %d into %d", was, h.lseq)
		return
	}
	if !h.same("NewBye") {
		return
	}
	s := h.t.send(h.bye, "BYE of a handmade call", netip.AddrPort{}, false)
	if s == nil {
		return
	}
	w := h.within("BYE", a)
	w.cseq = fmt.Sprint(was+1, " BYE")
	if h.check("BYE", s, w) {
		h.wait("BYE", h.bye, s)
	}
}

// want is what something sent for a call has to look like.
type want struct {
	start           string
	from, to, route []string
	cseq            string
	via             *cvia // of the transaction it belongs to
	auth            bool
	dsts            []netip.AddrPort
}

// within is what requests in a dialog look like.
func (h *hand) within(method string, a *sip.Msg) *want {
	w := &want{from: h.inv.c.lists["from"], to: []string{cAddr(a.To)}}
	next, uri := a.Contact.Uri, a.Contact.Uri
	var l []*sip.Addr
	for r := a.RecordRoute; r != nil; r = r.Next {
		l = append([]*sip.Addr{r}, l...)
	}
	for _, r := range l {
		w.route = append(w.route, cAddr(r))
	}
	if len(l) > 0 {
		next = l[0].Uri
		if next.Param.Get("lr") == nil {
			uri = next
			w.route = append(w.route[1:], fmt.Sprintf("%q <%s>;", "", cSipURI(a.Contact.Uri)))
		}
	}
	w.start = method + " " + cSipURI(uri)
	w.dsts = h.t.resolve(next.Host, int(next.Port))
	return w
}

func (h *hand) check(what string, s *tsend, w *want) bool {
	c := s.c
	raw := clip(string(s.writes[0].b))
	list := func(k string, want []string) bool {
		if strings.Join(c.lists[k], "\n") == strings.Join(want, "\n") {
			return true
		}
		h.bad("handmade-"+strings.ToLower(what), "%s has %s %q instead of %q\n%s", what, k, c.lists[k], want, raw)
		return false
	}
	if !list("from", w.from) || !list("to", w.to) || !list("route", w.route) {
		return false
	}
	why := ""
	sent := false
	for _, d := range w.dsts {
		sent = sent || s.writes[0].dst == d
	}
	own := h.t.conn.Local()
	switch {
	case c.start != w.start:
		why = fmt.Sprintf("starts %q instead of %q", c.start, w.start)
	case c.f["callid"] != h.id:
		why = "isn't about that call"
	case c.f["cseq"] != w.cseq:
		why = fmt.Sprintf("has CSeq %s instead of %s", c.f["cseq"], w.cseq)
	case len(c.vias) != 1:
		why = fmt.Sprintf("has %d Vias", len(c.vias))
	case c.vias[0].host != own.Addr().String() || port5060(c.vias[0].port) != int(own.Port()):
		why = fmt.Sprintf("has Via %s", c.vias[0].String())
	case !sent:
		why = fmt.Sprintf("was sent to %s instead of %v", s.writes[0].dst, w.dsts)
	case w.auth && (c.f["authorization"] != h.inv.c.f["authorization"] || c.f["proxyauthorization"] != h.inv.c.f["proxyauthorization"]):
		why = "lacks the credentials of the INVITE"
	}
	if why == "" {
		b, _ := c.vias[0].get("branch")
		if w.via != nil {
			if x, _ := w.via.get("branch"); x != b || w.via.host != c.vias[0].host || w.via.port != c.vias[0].port {
				why = fmt.Sprintf("has Via %s, that of the INVITE was %s", c.vias[0].String(), w.via.String())
			}
		} else if !strings.HasPrefix(b, "z9hG4bK") {
			why = "lacks a branch"
		} else if x, _ := h.inv.c.vias[0].get("branch"); what == "BYE" && x == b {
			why = "has the branch of the INVITE"
		}
	}
	if why != "" {
		h.bad("handmade-"+strings.ToLower(what), "%s %s\n%s", what, why, raw)
		return false
	}
	return true
}

// got is the application being told something about the call.
func (h *hand) got(g *tgot) {
	m := g.msg
	if g.weak || h.lost || h.t.broke {
		return
	}
	if h.t.e.k.Tag {
		g.used = true
	}
	if !m.IsResponse() {
		h.asked(g)
		return
	}
	i := h.inv
	if i == nil {
		return // Still being sent.
	}
	// Is what the library says about responses true?
	for _, q := range []*sip.Msg{h.invite, h.cancel, h.bye} {
		if q == nil || q.Via == nil {
			continue
		}
		v := &g.c.vias[len(g.c.vias)-1]
		b, _ := v.get("branch")
		mine := ""
		if x := q.Via.Param.Get("branch"); x != nil {
			mine = x.Value
		}
		should := g.c.f["cseq"] == fmt.Sprint(q.CSeq, " ", q.Method) && b == mine && v.host == q.Via.Host && port5060(v.port) == port5060(int(q.Via.Port))
		if is := dialog.ResponseMatch(q, m); is != should {
			h.bad("response-match", "ResponseMatch says %v about the %s and\n%s", is, q.Method, g.c.String())
			return
		}
	}
	switch {
	case dialog.ResponseMatch(h.invite, m):
		delete(h.waiting, "INVITE")
		if m.Status < 200 {
			h.prov = true
			if h.hang {
				h.hangup()
			}
			return
		}
		h.ack(g)
	case h.cancel != nil && dialog.ResponseMatch(h.cancel, m):
		delete(h.waiting, "CANCEL")
	case h.bye != nil && dialog.ResponseMatch(h.bye, m):
		delete(h.waiting, "BYE")
		h.over = true
	}
}

func (h *hand) ack(g *tgot) {
	m := g.msg
	ack := dialog.NewAck(m, h.invite)
	if d := diff(canonMsg(m), g.c); d != "" && !g.used {
		h.bad("response-changed", "NewAck changed the response:%s", d)
		return
	}
	if !h.same("NewAck") {
		return
	}
	var w *want
	if m.Status < 300 {
		w = h.within("ACK", m)
		rt.Stat("op.handmade_ack2xx")
	} else {
		i := h.inv.c
		w = &want{start: "ACK" + i.start[len("INVITE"):], from: i.lists["from"], to: []string{cAddr(m.To)}, route: i.lists["route"], via: &i.vias[0], dsts: h.inv.dsts}
		rt.Stat("op.handmade_ack")
	}
	w.auth = true
	w.cseq = fmt.Sprint(h.invite.CSeq, " ACK")
	s := h.t.send(ack, "ACK of a handmade call", netip.AddrPort{}, false)
	if s == nil || !h.check("ACK", s, w) {
		return
	}
	if m.Status >= 300 {
		h.over = true
		delete(h.waiting, "CANCEL")
		return
	}
	if h.answer == nil {
		h.answer = m
	}
	delete(h.waiting, "CANCEL")
	if h.hang {
		h.sendBye()
	}
}

// asked is a request of the remote party arriving.
func (h *hand) asked(g *tgot) {
	m := g.msg
	t := h.t
	if m.Method == "ACK" {
		if r := h.ringing; r != nil {
			should := m.CSeq == r.CSeq
			if is := dialog.AckMatch(r, m); is != should {
				h.bad("ack-match", "AckMatch says %v about a response with CSeq %d and\n%s", is, r.CSeq, g.c.String())
			}
		}
		return
	}
	want := identity(m, m)
	r := dialog.NewResponse(m, 200)
	if got := identity(r, m); got != want {
		h.bad("newresponse", "NewResponse to\n%s\nmade\n%s", want, got)
		return
	}
	if m.Method == "INVITE" {
		r.Contact = t.tp.Contact
		r.Payload = t.e.payload()
		h.ringing = r
	}
	if m.Method == "BYE" {
		h.over = true
		h.waiting = map[string]bool{}
	}
	s := t.send(r, "response to "+m.Method+" of a handmade call", t.truthOf(g), false)
	t.insist(r, s)
}

// arrived is the remote party getting something.
func (h *hand) arrived(p *tpeer, k *snet.Packet, m *SM) {
	e, s := p.e, h.side
	reply := func(d time.Duration, r *SM) {
		b := e.render(r)
		e.reg[string(b)] = r
		rt.After(d, func() {
			if !rt.Over() {
				p.conn.SendFrom(k.Src, b)
			}
		})
	}
	soon := func() time.Duration { return time.Duration(W(int(300 * time.Millisecond))) }
	if m.Resp {
		if s.own != nil && m.CSeq == s.own.CSeq && m.Vias[0].Branch() == s.own.Vias[0].Branch() && m.Status == 200 {
			if !s.ownOK {
				s.ownOK = true
				rt.Stat("op.handmade_asked." + s.own.Method)
			}
			if s.own.Method == "INVITE" {
				a := s.own.clone()
				a.Method, a.CMethod = "ACK", "ACK"
				a.CType, a.Body, a.H = "", "", nil
				setP(a.Vias[0].P, "branch", fmt.Sprint("z9hG4bKha", e.seq()))
				if F(100) {
					a.CSeq += pick(1, -1)
				}
				reply(0, a)
			}
		}
		return
	}
	switch m.Method {
	case "INVITE":
		if s.inv != nil {
			if s.last != nil {
				reply(soon(), s.last)
			}
			return
		}
		s.inv, s.src = m, k.Src
		d := time.Duration(0)
		for _, st := range s.plan {
			d += soon()
			r := h.mk(p, m, st)
			s.last = r
			reply(d, r)
			if F(100) {
				// From another transaction, or another's.
				q := h.mk(p, m, pick(180, 200, 404, 487))
				if F(300) {
					q.CMethod = pickS("CANCEL", "BYE", "OPTIONS")
				}
				if F(500) {
					setP(q.Vias[0].P, "branch", "z9hG4bKstray")
				} else if F(500) {
					q.CSeq += pick(1, -1)
				} else {
					q.Vias[0].Port = pick(5099, 1)
				}
				reply(d, q)
			}
		}
		if s.final != 0 {
			rt.After(d+time.Duration(W(int(2*time.Second))), func() { h.finish(p, s.final) })
		}
	case "CANCEL":
		if s.inv == nil || m.Vias[0].Branch() != s.inv.Vias[0].Branch() || m.CSeq != s.inv.CSeq || m.RURI != s.inv.RURI {
			reply(soon(), m.respond(481, s.tag))
			return
		}
		reply(soon(), m.respond(200, s.tag))
		s.cancel = true
		h.finish(p, 487)
	case "ACK":
		if s.done != nil && m.CSeq == s.inv.CSeq && m.To.Tag() == s.tag && m.From.Tag() == s.inv.From.Tag() && (s.done.Status < 300 || m.Vias[0].Branch() == s.inv.Vias[0].Branch()) {
			if !s.acked && s.done.Status < 300 && F(400) {
				rt.After(soon(), func() { h.ask(p) })
			}
			s.acked = true
		}
	case "BYE":
		if s.done == nil || s.done.Status >= 300 || m.CSeq <= s.inv.CSeq || m.To.Tag() != s.tag || m.From.Tag() != s.inv.From.Tag() {
			reply(soon(), m.respond(481, s.tag))
			return
		}
		s.bye = true
		reply(soon(), m.respond(200, s.tag))
	}
}

// mk makes a response to the INVITE.
func (h *hand) mk(p *tpeer, m *SM, st int) *SM {
	tag := h.side.tag
	if st == 100 {
		tag = ""
	}
	r := m.respond(st, tag)
	r.Phrase = pickS("OK", "Not Really")
	if st > 100 {
		r.RR = h.side.rr
	}
	if st >= 180 && st < 400 {
		r.Contact = []NA{{Display: pickS("", "Bob's"), U: URI{Scheme: "sip", User: pickS("bob", ""), Host: p.ap.Addr().String(), Port: int(p.ap.Port())}}}
		if F(200) {
			r.Contact[0].U.P = []Prm{{"ob", "", false}}
		}
	}
	if st < 300 && st > 100 && F(500) {
		r.CType, r.Body = p.e.body()
	}
	return r
}

// finish sends the final response until it's acknowledged.
func (h *hand) finish(p *tpeer, st int) {
	s := h.side
	if s.done != nil || rt.Over() {
		return
	}
	s.done = h.mk(p, s.inv, st)
	s.last = s.done
	b := p.e.render(s.done)
	p.e.reg[string(b)] = s.done
	var next func()
	next = func() {
		if s.acked || rt.Over() || rt.Now() > p.e.until() {
			return
		}
		p.conn.SendFrom(s.src, b)
		rt.After(500*time.Millisecond, next)
	}
	next()
}

// ask makes the remote party send a request of its own.
func (h *hand) ask(p *tpeer) {
	s := h.side
	if s.own != nil || s.bye || rt.Over() {
		return
	}
	l := h.t.conn.Local()
	meth := pickS("BYE", "OPTIONS", "INVITE")
	m := &SM{Method: meth, CMethod: meth, CallID: h.id, CSeq: 1 + W(1000), MF: 70, From: s.done.To, To: s.done.From}
	m.RURI = URI{Scheme: "sip", Host: l.Addr().String(), Port: int(l.Port())}.String()
	m.Vias = []Via{{Host: p.host, Port: p.port, P: []Prm{P1("branch", fmt.Sprint("z9hG4bKhb", p.e.seq()))}}}
	m.Contact = s.done.Contact
	if meth == "INVITE" {
		m.CType, m.Body = p.e.body()
	}
	s.own = m
	b := p.e.render(m)
	p.e.reg[string(b)] = m
	var next func()
	next = func() {
		if s.ownOK || rt.Over() || rt.Now() > p.e.until() {
			return
		}
		p.conn.SendFrom(l, b)
		rt.After(500*time.Millisecond, next)
	}
	next()
}

// settled checks that a call came to an end for both.
func (h *hand) settled() {
	s := h.side
	if h.lost || h.t.broke {
		return
	}
	switch {
	case s.inv == nil:
		h.bad("handmade-lost", "no INVITE arrived")
	case s.own != nil && !s.ownOK:
		h.bad("handmade-lost", "its %s wasn't answered", s.own.Method)
	case !h.over:
		h.bad("handmade-lost", "it isn't over (provisional response: %v, final: %v, CANCEL: %v, BYE: %v)", h.prov, h.answer != nil, h.cancel != nil, h.bye != nil)
	case s.done != nil && !s.acked:
		h.bad("handmade-lost", "its %d wasn't acknowledged", s.done.Status)
	case s.done != nil && s.done.Status < 300 && !s.bye && (s.own == nil || s.own.Method != "BYE"):
		h.bad("handmade-lost", "it is over but the remote wasn't told")
	default:
		rt.Stat("op.handmade_settled")
	}
}
