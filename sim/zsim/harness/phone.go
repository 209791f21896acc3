package main

import (
	"fmt"
	"net/netip"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/zsim/rt"
	"github.com/jart/gosip/zsim/snet"
)

// A phone is a caller with sound, the way fone/main.go is one: a call and a
// media session driven by a single event loop.

type phone struct {
	*rsess
	told string // address last given by the call, "" for none
	to   netip.AddrPort
	seen int // remote audio sent to where the call said it should go
}

// openMedia prepares for calls with sound.
func (e *Env) openMedia(k *Knobs) {
	m := &rEnv{w: e.w, k: &rKnobs{Swap: 50, Hold: pick(0, 0, 200)}, by: map[string]*rsess{}, frozen: e.frozen, states: map[string]bool{}, send: map[*rt.G]*rsend{}, binds: map[string]*rbind{}}
	e.media = m
	rt.S.Also = func(props []string) []string {
		for _, p := range props {
			switch p {
			case "C02", "C03", "C11", "C15", "C16", "C17", "C18":
				return append(props, "C22")
			}
		}
		return props
	}
	accept, write := e.w.OnAccept, e.w.OnWrite
	e.w.OnAccept = func(c *snet.UDPConn, p *snet.Packet) {
		accept(c, p)
		m.onAccept(c, p)
	}
	e.w.OnWrite = func(c *snet.UDPConn, dst netip.AddrPort, b []byte, err error) {
		write(c, dst, b, err)
		if m.by[c.Owner] != nil {
			m.onWrite(c, dst, b, err)
		}
	}
	done := map[netip.Addr]bool{}
	for _, u := range e.peers {
		if a := u.ap.Addr(); !done[a] {
			done[a] = true
			p := &rpeer{ap: netip.AddrPortFrom(a, uint16(20000+W(40000))), ssrc: uint32(W(1 << 30)), seq: uint16(W(65536)), ts: uint32(W(1 << 30))}
			if p.conn = u.h.OpenPeer(p.ap.String(), func(*snet.Packet) {}); p.conn != nil {
				m.peers = append(m.peers, p)
			}
		}
	}
}

// openPhone gives a call a media session and has its INVITE offer it.
func (c *Call) openPhone() {
	m := c.e.media
	s := &rsess{e: m, name: "media-" + c.name, host: c.host, ctl: make(chan func(), 1000), any: true}
	ip := c.host.IPs[W(len(c.host.IPs))]
	host := ""
	if F(250) {
		host = ip.String()
	}
	m.by[s.name] = s
	restore := rt.SetHost(c.host.Name, s.name)
	rs, err := rtp.NewSession(host)
	restore()
	if err != nil {
		rt.Stat("op.bind_failed")
		delete(m.by, s.name)
		return
	}
	socks := c.e.w.OpenSocks(s.name)
	if len(socks) != 1 {
		rt.Fail([]string{"C19", "C22"}, "bind-leak", "opened %d sockets", len(socks))
		return
	}
	s.rs, s.conn = rs, socks[0]
	m.list = append(m.list, s)
	if F(200) {
		s.renumber()
	}
	c.med = &phone{rsess: s}
	if m.k.Hold > 0 && c.slow == nil {
		c.slow = func() {}
	}
	sp := c.spec
	sp.SDP, sp.Body = true, ""
	sp.SDPPort = int(s.conn.Local().Port())
	if sp.SDPAddr = ""; host != "" || F(600) {
		sp.SDPAddr = ip.String()
	}
	sp.codecs()
	rt.Stat("op.phone")
}

// heard takes note of the session descriptions a call sends.
func (c *Call) heard(m *SM) {
	h, p, ok := sdpPeer(m.CType, m.Body)
	if !ok {
		return
	}
	a, err := netip.ParseAddr(h)
	ours := false
	for _, x := range c.host.IPs {
		ours = ours || err == nil && x == a
	}
	if !ours || p != int(c.med.conn.Local().Port()) {
		rt.Fail([]string{"C22"}, "offer", "call %s asks for audio at %s port %d; its media session is at %s", c.name, h, p, c.med.conn.Local())
		return
	}
	first := !c.med.to.IsValid()
	c.med.to = netip.AddrPortFrom(a, uint16(p))
	if first && F(300) {
		c.remoteAudio(1+W(4), c.e.media.lat())
	}
}

func (m *rEnv) lat() time.Duration { return time.Duration(W(int(2 * time.Second))) }

// remoteAudio has a remote party talk to where the call said it listens.
func (c *Call) remoteAudio(n int, at time.Duration) {
	for ; n > 0; n-- {
		rt.After(at, func() {
			p := c.med
			if rt.Over() || !p.to.IsValid() {
				return
			}
			var l []*rpeer
			for _, q := range c.e.media.peers {
				if q.ap.Addr().Is4() == p.to.Addr().Is4() && c.med.reaches(q.ap.Addr()) {
					l = append(l, q)
				}
			}
			if len(l) == 0 {
				return
			}
			q := l[W(len(l))]
			if F(100) {
				q.other(c.med.rsess)
				return
			}
			rt.Stat("op.peer_audio")
			c.med.seen++
			q.conn.SendFrom(p.to, q.packet(0, ulawNoise()))
		})
		at += 20 * time.Millisecond
	}
}

// ticks has the microphone deliver audio.
func (c *Call) ticks(n int, at time.Duration) {
	for ; n > 0; n-- {
		rt.After(at, func() {
			if !rt.Over() {
				c.med.do(func() { c.talk(c.med.sendFrame) })
			}
		})
		at += 20 * time.Millisecond
	}
}

// talk sends something if the address is still what the call said it is.
func (c *Call) talk(send func()) {
	p := c.med
	if p.closing {
		if p.closed {
			send()
		}
		return
	}
	now := ""
	if p.rs.Peer != nil {
		now = p.rs.Peer.String()
	}
	if now != p.told {
		rt.Fail([]string{"C22", "C11"}, "peer-changed", "call %s said audio goes to %q; the address has turned into %q since", c.name, p.told, now)
		return
	}
	if p.told != "" {
		rt.Stat("op.talk")
	}
	send()
}

// director's part

func (d *director) phoneAct() {
	c := d.call()
	if c.med == nil || rt.Over() {
		return
	}
	switch weighted([]int{30, 12, 30, 4, 3, 2}) {
	case 0:
		c.ticks(1+W(8), 0)
	case 1:
		n := 1 + W(3)
		c.med.do(func() {
			for ; n > 0 && !rt.Over(); n-- {
				dg := digits[W(len(digits))]
				c.talk(func() { c.med.sendDTMF(dg) })
			}
		})
	case 2:
		c.remoteAudio(1+W(8), 0)
	case 3: // the user hangs up
		first := F(500)
		c.med.do(func() {
			if first {
				c.med.close()
			}
			c.endNow()
		})
	case 4:
		if s := c.med.rsess; !s.broke && s.conn.IsOpen() {
			s.broke = true
			rt.Stat("fault.media_socket")
			s.conn.Kill(errNoBufs)
		}
	case 5:
		c.med.do(func() { c.talk(c.med.sendRaw) })
	}
}

// endNow hangs up from within the event loop for reasons of its own.
func (c *Call) endNow() {
	if c.hangN >= 4 {
		return
	}
	c.hangN++
	if c.hangT == 0 {
		c.hangT = rt.Now()
	}
	rt.Stat("op.hangup")
	c.hangNow()
}

// phoneLoop is the caller's event loop.
func (c *Call) phoneLoop() {
	p := c.med
	e, s, pe := c.dl.OnErr, c.dl.OnState, c.dl.OnPeer
	for e != nil || s != nil || pe != nil {
		fc, fe := p.rs.C, p.rs.E
		re, rs, rp, rfc, rfe, ro := rt.R(e), rt.R(s), rt.R(pe), rt.R(fc), rt.R(fe), rt.R(p.ctl)
		o := &Obs{}
		var after func()
		switch rt.Select(false, re, rs, rp, rfc, rfe, ro) {
		case 0:
			if !re.OK {
				e = nil
			} else {
				o.errIs(re.V)
				after = p.closeOnce
			}
		case 1:
			if !rs.OK {
				s = nil
			} else {
				o.K, o.State = 'n', rs.V
				if o.State == dialog.Hangup {
					after = p.closeOnce
				}
			}
		case 2:
			if !rp.OK {
				pe = nil
			} else {
				o.peerIs(rp.V)
				p.rs.Peer, p.told, p.peer = rp.V, "", netip.AddrPort{}
				if rp.V != nil {
					p.told, p.peer = o.Peer, rp.V.AddrPort()
					p.peer = netip.AddrPortFrom(p.peer.Addr().Unmap(), p.peer.Port())
				}
				n := W(4)
				after = func() { c.ticks(n, 0) }
			}
		case 3:
			if !rfc.OK || rfc.V == nil {
				rt.Fail([]string{"C18", "C22"}, "empty-frame", "%s: the phone's event loop received an empty frame (channel closed: %v, session closed: %v)", p.name, !rfc.OK, p.closed)
				return
			}
			c.busy = p.e.k.Hold > 0
			p.frame(rfc.V)
			c.busy = false
		case 4:
			p.errs++
			if !rfe.OK || rfe.V == nil || p.closed || !p.broke || p.errs > 1 {
				rt.Fail([]string{"C18", "C22"}, "media-error", "%s: the phone's event loop received error %v (channel closed: %v, session closed: %v, socket failed: %v, errors: %d)", p.name, rfe.V, !rfe.OK, p.closed, p.broke, p.errs)
				return
			}
			rt.Stat("op.error_reported")
			p.closeOnce()
			c.endNow()
		case 5:
			ro.V()
		}
		if rt.Over() {
			return
		}
		if o.K != 0 {
			c.note(o)
			if after != nil {
				after()
			}
			if c.slow != nil {
				c.busy = true
				c.slow()
				c.busy = false
			}
		}
	}
	p.closeOnce()
	c.ended()
}

func (p *phone) closeOnce() {
	if !p.closing {
		p.close()
	}
}

// phoneProbe has everybody who is on the phone talk once faults have stopped.
func (d *director) phoneProbe() {
	e := d.e
	wait := func() {
		over := false
		rt.After(4*time.Duration(e.interval)+300*time.Millisecond, func() { over = true })
		e.Observe(func() bool { return over })
	}
	wait()
	for _, c := range e.list {
		if c.med == nil || !c.med.live() || rt.Over() {
			continue
		}
		rt.Stat("op.phone_probe")
		c.ticks(2, 0)
		c.remoteAudio(2, 0)
	}
	wait()
	for _, c := range e.list {
		if c.med == nil || rt.Over() {
			continue
		}
		e.media.states[fmt.Sprint("phone ", c.answer, c.closed, c.med.closed, c.med.broke, c.med.told != "", c.med.frames > 0, c.med.seen > 0, len(c.med.pos), c.loose)] = true
		c.med.check()
	}
}

// phoneEnd checks that sessions went away with their calls.
func (d *director) phoneEnd() {
	for _, c := range d.e.list {
		if c.med == nil || rt.Over() {
			continue
		}
		if !c.med.closed {
			rt.Fail([]string{"C18", "C22"}, "close-hangs", "%s: the call is over but closing never returned; its tasks: %v %v", c.med.name, rt.Alive(c.med.name), rt.Alive("app-"+c.name))
			return
		}
		c.med.gone()
	}
}
