package main

import (
	"bytes"
	"fmt"
	"net/netip"
	"time"

	"github.com/jart/gosip/zsim/rt"
	"github.com/jart/gosip/zsim/snet"
)

// How remote parties may treat an attempt to call them.
const (
	plAnswer = iota
	plReject
	plUnavail
	plSilent
	plRing
	plRedirect
	plMess
	plNoContact
	plLate
	plRedirectNowhere
	plFork
	plLoop
	nPlans
)

var planNames = []string{"answer", "reject", "503", "silent", "ring", "redirect", "mess", "no-contact", "late", "redirect-nowhere", "fork", "redirect-loop"}

// W draws from the workload stream; F flips a coin of p per mille.
func W(n int) int       { return rt.Choose(rt.WORK, n) }
func F(pm int) bool     { return rt.Flip(rt.WORK, pm) }
func pick(l ...int) int { return l[W(len(l))] }

// weighted picks an index by weight; index 0 is the benign choice.
func weighted(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		return 0
	}
	n := W(t)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return 0
}

// UAS is a simulated remote party at one address.
type UAS struct {
	e     *Env
	k     *Knobs
	h     *snet.Host
	ap    netip.AddrPort
	conn  *snet.UDPConn
	tx    map[string]*utx
	loop  bool
	nInv  int
	nextT int
}

type utx struct {
	inv       *SM
	src       netip.AddrPort
	tag       string
	last      *SM // last response
	final     *SM
	acked     bool
	cancelled bool
	rr        []NA
	contact   []NA
	gen       int
}

// Open makes the party listen.
func (e *Env) NewUAS(k *Knobs, h *snet.Host, ap netip.AddrPort) *UAS {
	u := &UAS{e: e, k: k, h: h, ap: ap, tx: map[string]*utx{}}
	u.Open()
	e.uas[ap.String()] = u
	e.peers = append(e.peers, u)
	return u
}

func (u *UAS) Open() {
	if u.conn == nil {
		u.conn = u.h.OpenPeer(u.ap.String(), u.onPacket)
	}
}

// Crash makes the party forget everything and stop listening.
func (u *UAS) Crash() {
	if u.conn != nil {
		rt.Stat("fault.peer_crash")
		u.conn.ClosePeer()
		u.conn = nil
		u.tx = map[string]*utx{}
	}
}

func (u *UAS) send(d time.Duration, dst netip.AddrPort, m *SM) {
	b := padded(m.Bytes())
	rt.After(d, func() {
		if u.conn != nil && !rt.Over() {
			u.conn.SendFrom(dst, b)
		}
	})
}

// delay is a reaction time, with a liking for the moments when timers fire.
func (k *Knobs) delay() time.Duration {
	iv := time.Duration(k.Interval) * time.Millisecond
	switch W(12) {
	case 0, 1, 2, 3:
		return 0
	case 4, 5:
		return time.Duration(1+W(20)) * time.Millisecond
	case 6, 7:
		return time.Duration(W(int(iv) + 1))
	case 8:
		return iv
	case 9:
		return iv * time.Duration(1+W(k.Max+2))
	case 10:
		return time.Duration(W(4*int(iv) + 1))
	}
	d := iv*time.Duration(1+W(k.Max+1)) - 2*k.Lat
	if d < 0 {
		d = 0
	}
	return d
}

func (u *UAS) tagN() string {
	u.nextT++
	tail := ""
	if F(50) {
		tail = "-" + chars(tokenChars, false)
	}
	return fmt.Sprintf("uas%s-%d%s", u.ap.Addr(), u.nextT, tail)
}

func (u *UAS) uri(user string) URI {
	x := URI{Scheme: "sip", User: user, Host: u.ap.Addr().String(), Port: int(u.ap.Port())}
	if x.Port == 5060 && F(300) {
		x.Port = 0
	}
	return x
}

func (u *UAS) onPacket(p *snet.Packet) {
	if rt.Over() {
		return
	}
	m, err := parseSM(p.Data)
	if err != nil {
		return // the model complains about what it can
	}
	if m.Resp {
		u.onResponse(m, p)
		return
	}
	switch m.Method {
	case "INVITE":
		u.onInvite(m, p)
	case "ACK":
		for _, t := range u.tx {
			if t.inv.CallID == m.CallID && t.inv.CSeq == m.CSeq && t.final != nil && t.final.To.Tag() == m.To.Tag() {
				t.acked = true
			}
		}
	case "CANCEL":
		u.onCancel(m, p)
	case "BYE":
		u.onBye(m, p)
	default:
		u.send(u.k.delay(), p.Src, m.respond(200, u.tagN()))
	}
}

func (u *UAS) onInvite(m *SM, p *snet.Packet) {
	key := m.CallID + "|" + m.Via().Branch()
	if t := u.tx[key]; t != nil {
		rt.Stat("uas.retransmitted_invite")
		if t.last != nil && !F(200) {
			u.send(0, p.Src, t.last)
		}
		return
	}
	t := &utx{inv: m, src: p.Src, tag: u.tagN()}
	u.tx[key] = t
	u.nInv++
	pl := weighted(u.k.Plans)
	if u.loop {
		pl = plLoop
	}
	rt.Stat("uas.plan." + planNames[pl])
	d := u.k.delay()
	u.run(t, pl, d)
}

// provs emits some provisional responses and returns the time of the last.
func (u *UAS) provs(t *utx, d time.Duration, n int) time.Duration {
	codes := []int{180, 100, 183, 180, 100, 183, 181, 182, 199}
	for i := 0; i < n; i++ {
		c := codes[W(len(codes))]
		u.respond(t, d, c)
		d += u.k.delay()
	}
	return d
}

func (u *UAS) mk(t *utx, status int) *SM {
	tag := t.tag
	if status == 100 && !F(100) {
		tag = ""
	}
	r := t.inv.respond(status, tag)
	if F(u.k.Sdp) && (status == 180 || status == 183 || status == 200 || F(150)) {
		r.CType, r.Body = u.e.remoteSDP(u.k, u.ap.Addr())
	}
	if status > 100 && status < 300 || F(120) {
		if t.contact == nil {
			t.contact = []NA{u.e.contactFor(u)}
			if F(u.k.Routes) {
				for n := some(2); n > 0; n-- {
					t.rr = append(t.rr, u.e.routeHop(u))
				}
			}
		}
		r.Contact, r.RR = t.contact, t.rr
		if status == 200 && F(40) {
			r.Contact = append(append([]NA(nil), r.Contact...), NA{U: URI{Scheme: "sip", User: "alt", Host: "203.0.113.99"}})
		}
	}
	if F(200) {
		r.Phrase = pickS("OK", "Fine by me", "", "Ünïcode", "Really: no", chars(unreserved+";/?:@&=+$, ", false)+"x")
	}
	if F(100) {
		r.H = append(r.H, Hdr{"Server", "sim/1.0 (x)"}, Hdr{"X-Odd", pickS("a;b=\"c\",d", text())})
	}
	return r
}

func (u *UAS) respond(t *utx, d time.Duration, status int) {
	r := u.mk(t, status)
	u.sendTx(t, d, r)
}

func (u *UAS) sendTx(t *utx, d time.Duration, r *SM) {
	b := padded(r.Bytes())
	gen := t.gen
	rt.After(d, func() {
		if u.conn == nil || rt.Over() || gen != t.gen && r.Status >= 200 {
			return
		}
		if r.Status >= 200 && t.final == nil {
			t.final = r
			u.retransmit(t, b, 500*time.Millisecond, 1+W(5))
		}
		if t.final == nil || r.Status >= 200 {
			t.last = r
		}
		u.conn.SendFrom(t.src, b)
	})
}

// retransmit repeats a final response until it's acknowledged.
func (u *UAS) retransmit(t *utx, b []byte, d time.Duration, n int) {
	if n == 0 || F(150) {
		return
	}
	rt.After(d, func() {
		if u.conn == nil || t.acked && !F(100) || rt.Over() {
			return
		}
		rt.Stat("uas.retransmitted_final")
		u.conn.SendFrom(t.src, b)
		u.retransmit(t, b, d*2, n-1)
	})
}

var rejects = []int{486, 404, 480, 600, 603, 500, 408, 487, 401, 407, 300, 305, 380, 499, 599, 699, 400, 415, 483, 501, 504, 202, 299}

func (u *UAS) run(t *utx, pl int, d time.Duration) {
	k := u.k
	nprov := W(4)
	switch pl {
	case plAnswer:
		d = u.provs(t, d, nprov)
		u.respond(t, d, 200)
	case plReject:
		d = u.provs(t, d, nprov)
		u.respond(t, d, rejects[W(len(rejects))])
	case plUnavail:
		if F(300) {
			d = u.provs(t, d, nprov)
		}
		u.respond(t, d, 503)
	case plSilent:
	case plRing:
		u.provs(t, d, 1+nprov)
	case plRedirect, plRedirectNowhere, plLoop:
		if F(300) {
			d = u.provs(t, d, nprov)
		}
		r := u.mk(t, pick(302, 301))
		r.Contact, r.RR = nil, nil
		switch pl {
		case plRedirect:
			r.Contact = []NA{u.e.target(u)}
			if F(200) {
				r.Contact = append(r.Contact, u.e.target(u))
			}
		case plLoop:
			r.Contact = []NA{u.e.target(u)}
			u.loop = true
		}
		u.sendTx(t, d, r)
	case plMess:
		codes := []int{180, 200, 100, 183, 200, 302, 503, 486, 180, 404, 301, 181, 600, 199}
		for n := 2 + W(5); n > 0; n-- {
			r := u.mk(t, codes[W(len(codes))])
			if r.Status/100 == 3 && F(800) {
				r.Contact = []NA{u.e.target(u)}
			}
			if r.Status >= 200 && r.Status < 300 && len(r.Contact) == 0 {
				r.Contact = []NA{u.e.contactFor(u)}
			}
			u.sendTx(t, d, r)
			d += k.delay()
		}
	case plNoContact:
		r := u.mk(t, 200)
		r.Contact, r.RR = nil, nil
		u.sendTx(t, d, r)
	case plLate:
		iv := time.Duration(k.Interval) * time.Millisecond
		d = iv*time.Duration(k.Max) + time.Duration(W(3*int(iv)+1))
		d = u.provs(t, d, W(2))
		u.respond(t, d, pick(200, 486, 503, 302, 180))
	case plFork:
		// A proxy forks the call and several parties answer.
		d = u.provs(t, d, nprov)
		for n := 2 + W(2); n > 0; n-- {
			t.contact, t.rr = nil, nil
			u.respond(t, d, 200)
			t.tag = u.tagN()
			d += k.delay()
		}
	}
}

func (u *UAS) onCancel(m *SM, p *snet.Packet) {
	key := m.CallID + "|" + m.Via().Branch()
	t := u.tx[key]
	rt.Stat("uas.cancel")
	if t == nil {
		if !F(300) {
			u.send(u.k.delay(), p.Src, m.respond(481, u.tagN()))
		}
		return
	}
	if F(u.k.CancelDeaf) {
		return
	}
	if !F(200) {
		u.send(u.k.delay(), p.Src, m.respond(pick(200, 200, 200, 481, 405), t.tag))
	}
	if t.cancelled || t.final != nil {
		return
	}
	t.cancelled = true
	switch weighted([]int{60, 15, 15, 10}) {
	case 0:
		t.gen++
		u.respond(t, u.k.delay(), 487)
	case 1: // whatever was planned, an answer perhaps, still happens
	case 2: // an answer crosses the CANCEL
		t.gen++
		u.respond(t, u.k.delay(), 200)
	case 3: // never resolved
		t.gen++
		if F(300) {
			u.provs(t, u.k.delay(), 1+W(3))
		}
	}
}

func (u *UAS) onBye(m *SM, p *snet.Packet) {
	rt.Stat("uas.bye")
	if F(u.k.ByeDeaf) {
		return
	}
	d := u.k.delay()
	if F(100) {
		u.send(d, p.Src, m.respond(100, ""))
		d += u.k.delay()
		if F(300) {
			return
		}
	}
	s := 200
	if F(u.k.ByeOdd) {
		s = pick(481, 503, 302, 500, 183, 408, 202)
	}
	r := m.respond(s, "")
	if s == 302 {
		r.Contact = []NA{u.e.target(u)}
	}
	u.send(d, p.Src, r)
}

func (u *UAS) onResponse(m *SM, p *snet.Packet) {
	rt.Stat("uas.response")
	c := u.e.byCallID(m.CallID)
	if c == nil || m.CMethod != "INVITE" || m.Status != 200 || c.reinv[m.CSeq] == nil || F(u.k.AckLost) {
		return
	}
	r := c.reinv[m.CSeq].clone()
	r.Method, r.CMethod, r.Body, r.Contact = "ACK", "ACK", "", nil
	r.Vias = []Via{u.via()}
	if F(60) {
		r.CSeq += pick(1, -1, 7)
	}
	u.send(u.k.delay(), p.Src, r)
}

func (u *UAS) via() Via {
	u.nextT++
	return Via{Host: u.ap.Addr().String(), Port: int(u.ap.Port()), P: []Prm{{"branch", fmt.Sprintf("z9hG4bKuas%d-%d", u.ap.Port(), u.nextT), true}}}
}

func padded(b []byte) []byte {
	if F(10) {
		b = bytes.Replace(b, []byte("SIP/2.0"), []byte("sip/2.0"), 1)
	}
	if F(15) {
		return append(b, surplus()...)
	}
	return b
}
