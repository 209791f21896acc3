package main

import (
	"bytes"
	"flag"
	"fmt"
	"net/netip"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/zsim/rt"
	"github.com/jart/gosip/zsim/scrand"
	"github.com/jart/gosip/zsim/snet"
)

var errNoBufs = os.NewSyscallError("write", syscall.ENOBUFS)

// director makes things happen to calls.
type director struct {
	e  *Env
	k  *Knobs
	ua *snet.Host
}

func setFlag(name, val string) {
	if flag.Lookup(name) == nil {
		rt.HarnessError("no flag %s", name)
		return
	}
	if err := flag.Set(name, val); err != nil {
		rt.HarnessError("flag %s: %v", name, err)
	}
}

// failRandom makes the random source fail. Crashing is a fair reaction to that.
func failRandom(pm int, horizon time.Duration) {
	if pm == 0 {
		return
	}
	from := int64(0)
	if F(500) {
		from = int64(W(int(horizon)))
	}
	scrand.FailRand = func() bool { return rt.Now() >= from && rt.Flip(rt.NET, pm) }
	old := rt.S.OnPanic
	rt.S.OnPanic = func(g *rt.G, val any, stack string) []string {
		if scrand.Bad > 0 {
			return nil
		}
		return old(g, val, stack)
	}
}

// guessable complains if there are more identifiers than random numbers.
func guessable(ids int, what string) {
	if scrand.FailRand != nil && ids > scrand.Good {
		rt.Fail([]string{"C20"}, "predictable", "identifier %s was made although the random source failed (identifiers so far: %d, successful reads of the source: %d)", what, ids, scrand.Good)
	}
}

// thin counts identifiers of the run that look like they have less than 48 bits.
var thin map[string]int

// short complains of identifiers too short to be unique.
func short(kind, v, by string) {
	r := strings.Trim(strings.TrimPrefix(v, "z9hG4bK"), "-")
	if len(r) < 8 && len(v) < 8 {
		rt.Fail([]string{"C20"}, kind+"-short", "%s made %s %q", by, kind, v)
	}
	bits := 0
	switch {
	case strings.Trim(r, "0123456789") == "":
		bits = len(r) * 10 / 3
	case strings.Trim(strings.ToLower(r), "0123456789abcdef-") == "":
		bits = (len(r) - strings.Count(r, "-")) * 4
	default:
		return
	}
	if bits < 40 {
		// Any other alphabet may look like this by chance, but not for long.
		if thin[kind]++; thin[kind] == 5 {
			rt.Fail([]string{"C20"}, kind+"-short", "%s made %s %q, and four like that before", by, kind, v)
		}
	}
}

// callScenario is one run with calls in it.
func callScenario(k *Knobs) *Env {
	setFlag("resendInterval", strconv.Itoa(k.Interval))
	setFlag("maxResends", strconv.Itoa(k.Max))
	setFlag("looseSignalling", strconv.FormatBool(k.Loose))
	setFlag("trace", strconv.FormatBool(F(60)))
	setFlag("timestampTagging", strconv.FormatBool(F(60)))
	e := NewEnv()
	thin = map[string]int{}
	failRandom(k.RandFail, k.Horizon)
	ua := e.build(k)
	d := &director{e, k, ua}
	e.w.FaultsTill = int64(k.Horizon)
	rt.S.Limit += int64(k.Horizon)
	if k.Media {
		e.openMedia(k)
		for n := W(30); n > 0; n-- {
			rt.After(time.Duration(W(int(k.Horizon))), func() { d.phoneAct() })
		}
	}
	if k.Long {
		rt.After(0, func() {
			for _, c := range e.list {
				if c.med != nil {
					n := int(k.Horizon / (20 * time.Millisecond))
					c.ticks(n, 0)
					c.remoteAudio(n, 0)
					rt.Stat("op.long_stream")
				}
			}
		})
	}
	e.onWrite, e.onNote, e.onAccept = d.onWrite, d.onNote, d.onAccept
	for i := 0; i < k.Calls; i++ {
		name := fmt.Sprintf("call%d", i)
		sp := e.spec(k)
		start := func() *Call {
			c := e.NewCall(name, ua, sp)
			c.weak = k.Weak
			if F(k.Slow) {
				c.slow = func() { d.slowness() }
				rt.Stat("fault.slow_caller")
			}
			return c
		}
		if i == 0 {
			start()
		} else {
			at := k.delay()
			if at >= k.Horizon {
				at = k.Horizon - 1
			}
			rt.After(at, func() {
				rt.GoOn("start-"+name, "ua", "starter", func() {
					// A frozen host may get here too late.
					if rt.Now() < int64(k.Horizon) {
						start()
					}
				})
			})
		}
	}
	for n := W(k.Actions + 1); n > 0; n-- {
		a := weighted(k.ActW)
		at := time.Duration(W(int(k.Horizon)))
		if F(500) {
			at = time.Duration(W(int(k.Horizon) / 8))
		}
		rt.After(at, func() { d.act(a) })
	}
	if k.Hostile > 0 {
		d.hostility()
	}
	end := int64(k.Horizon)
	stop := false
	rt.At(end, func() { stop = true })
	e.Observe(func() bool { return stop })
	if rt.Over() {
		return e
	}
	// Faults have stopped. Now every call must be able to end.
	busy := false
	for h := range e.frozen {
		busy = busy || k.Weak
		rt.Thaw(h)
		e.frozen[h] = false
	}
	e.w.Cut = nil
	for _, c := range e.list {
		if c.slow != nil {
			c.slow = func() {}
			busy = busy || c.weak && c.busy
		}
	}
	if busy {
		idle := false
		rt.After(4*time.Duration(e.interval), func() { idle = true })
		e.Observe(func() bool { return idle })
		if rt.Over() {
			return e
		}
	}
	d.probe()
	if k.Media && !rt.Over() {
		d.phoneProbe()
	}
	if rt.Over() {
		return e
	}
	for _, c := range e.list {
		if !c.closed {
			c.HangUp()
		}
	}
	e.Observe(nil)
	if rt.Over() {
		return e
	}
	for _, c := range e.list {
		if !c.closed && c.dl != nil {
			p := uniq(append([]string{"C02", "C03"}, c.tainted()...))
			if c.weak {
				p = append(p, "C01")
			}
			rt.Fail(p, "never-ends", "call %s was asked to hang up but never ended; its tasks: %v", c.name, rt.Alive(c.name))
			return e
		}
		bound := c.e.interval*int64(c.e.max+1)*4 + int64(8*k.Horizon)*b2i(c.hangT < end) + int64(20*time.Second)*b2i(c.slow != nil)
		if c.hangT > 0 && c.hangT >= end && c.endT-c.hangT > bound {
			rt.Fail([]string{"C03"}, "slow-end", "call %s took %v to end after hangup", c.name, time.Duration(c.endT-c.hangT))
			return e
		}
	}
	if k.Media {
		d.phoneEnd()
	}
	return e
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (c *Call) tainted() (r []string) {
	return rt.Keys(c.taint)
}

func (d *director) slowness() {
	if F(500) {
		rt.Sleep(time.Duration(1 + W(3*int(d.e.interval)+1)))
	}
}

func (d *director) call() *Call {
	return d.e.list[W(len(d.e.list))]
}

func (d *director) act(a int) {
	e := d.e
	if rt.Over() || len(e.list) == 0 {
		return
	}
	switch a {
	case acHangup:
		d.call().HangUp()
	case acStray:
		d.stray(d.call())
	case acRequest:
		d.request(d.call(), false)
	case acICMP:
		d.call().Refuse()
	case acBreak:
		c := d.call()
		if !c.closed {
			c.Break(d.k.Loose && F(500))
		}
	case acFreeze:
		dur := d.k.delay() + time.Duration(1+W(1000))*time.Millisecond
		e.atQuiet = append(e.atQuiet, func() {
			if e.frozen["ua"] || rt.Now() >= int64(d.k.Horizon) {
				return
			}
			for _, c := range e.list {
				if c.busy || c.slow != nil {
					return
				}
			}
			e.frozen["ua"] = true
			if e.media != nil {
				e.media.froze = true
			}
			rt.Freeze("ua")
			rt.Note("freeze", 0, 0, nil)
			rt.After(dur, func() {
				rt.Note("thaw", 0, 0, nil)
				e.frozen["ua"] = false
				rt.Thaw("ua")
			})
		})
	case acCut:
		u := e.peers[W(len(e.peers))]
		till := rt.Now() + int64(d.k.delay()) + int64(W(2000))*1e6
		one := F(300)
		old := e.w.Cut
		rt.Stat("fault.partition")
		e.w.Cut = func(s, t netip.Addr) bool {
			if old != nil && old(s, t) {
				return true
			}
			return rt.Now() < till && (t == u.ap.Addr() || !one && s == u.ap.Addr())
		}
	case acPeerCrash:
		e.peers[W(len(e.peers))].Crash()
	case acPeerBack:
		for _, u := range e.peers {
			if u.conn == nil && F(500) {
				u.Open()
			}
		}
	}
}

func (d *director) onWrite(c *Call, o *Obs) {
	if F(d.k.HangTrig) {
		rt.After(d.race(), c.HangUp)
	}
	if F(d.k.StrayTrig) {
		rt.After(d.k.delay(), func() { d.stray(c) })
	}
}

func (d *director) onAccept(c *Call) {
	if F(d.k.HangTrig) {
		rt.After(d.race(), c.HangUp)
	}
}

func (d *director) onNote(c *Call, o *Obs) {
	if F(d.k.HangTrig) {
		rt.After(d.race(), c.HangUp)
	}
	if o.K == 'n' && o.State == dialog.Answered && d.k.InDialog > 0 {
		at := time.Duration(0)
		n := W(d.k.InDialog + 1)
		if F(20) {
			n += 20 + W(60)
			c.pinged = true
		}
		for ; n > 0; n-- {
			at += d.k.delay()
			rt.After(at, func() { d.request(c, true) })
		}
	}
}

func (d *director) race() time.Duration {
	switch W(4) {
	case 0, 1:
		return 0
	case 2:
		return time.Duration(W(int(2*d.k.Lat) + 1))
	}
	return d.k.delay()
}

// alien is a version of SIP nobody speaks.
func alien() string {
	return pickS("SIP/3.0", "SIP/2.1", "SIP/1.0", "SIP/0.2", "SIP/20.0", "SIP/2.255")
}

// stray delivers a response that doesn't quite belong.
func (d *director) stray(c *Call) {
	if rt.Over() || c.closed || c.weak {
		return
	}
	var reqs []*SM
	for _, o := range c.log {
		if o.K == 's' && o.M != nil && o.Perr == nil && !o.M.Resp && o.M.Method != "ACK" {
			reqs = append(reqs, o.M)
		}
	}
	if len(reqs) == 0 {
		return
	}
	ref := reqs[len(reqs)-1]
	old := F(350)
	if old {
		ref = reqs[W(len(reqs))]
	}
	codes := []int{200, 180, 302, 503, 404, 100, 486, 301, 183, 487, 200}
	r := ref.respond(codes[W(len(codes))], fmt.Sprint("stray", W(100)))
	u := d.e.peers[W(len(d.e.peers))]
	if r.Status > 100 && r.Status < 400 {
		r.Contact = []NA{d.e.contactFor(u)}
	}
	if F(300) {
		r.CType, r.Body = d.e.remoteSDP(d.k, u.ap.Addr())
	}
	v := r.Via()
	kind := 1 + W(9)
	if old {
		kind = W(10)
	}
	switch kind {
	case 1:
		r.CallID = pickS(r.CallID+"x", "x"+r.CallID, r.CallID[:len(r.CallID)-1]+"_", "other@call", recase(r.CallID))
	case 2:
		r.CSeq += pick(1, -1, 256, 65536)
	case 3:
		m := []string{"INVITE", "BYE", "OPTIONS", "CANCEL", "REGISTER", "ACK"}[W(6)]
		if m == r.CMethod {
			m = "MESSAGE"
		}
		r.CMethod = m
	case 4:
		v.Host = pickS("192.0.2.9", "other.example", v.Host+"0")
	case 5:
		v.Port += pick(1, -1)
	case 6:
		b := v.Branch()
		if len(b) > 1 {
			b = pickS(b[:len(b)-1]+"~", b+"0", b[:len(b)-1], "z9hG4bK")
		}
		setP(v.P, "branch", b)
	case 7:
		var l []Prm
		for _, p := range v.P {
			if p.Name != "branch" {
				l = append(l, p)
			}
		}
		v.P = l
	case 8:
		if r.CMethod == "INVITE" {
			r.CSeq++
			r.CMethod = "BYE"
		} else {
			r.CSeq--
			r.CMethod = "INVITE"
		}
	case 9:
		if len(reqs) > 1 {
			*v = *reqs[W(len(reqs)-1)].Via()
		} else {
			r.CallID += "z"
		}
	}
	if F(60) {
		r.Alien = alien()
	}
	rt.Stat("op.stray")
	d.inject(c, r)
}

func setP(ps []Prm, name, val string) {
	for i := range ps {
		if ps[i].Name == name {
			ps[i].Value = val
		}
	}
}

// inject delivers a message to one of the call's sockets.
func (d *director) inject(c *Call, m *SM) { d.injectRaw(c, m.Bytes()) }

func (d *director) injectRaw(c *Call, b []byte) {
	socks := d.e.w.OpenSocks(c.name)
	if len(socks) == 0 {
		return
	}
	s := socks[W(len(socks))]
	src, dst := s.Remote(), s.Local()
	if s.Wild() {
		src = d.e.peers[W(len(d.e.peers))].ap
		ip := d.ua.IPs[0]
		for _, a := range d.ua.IPs {
			if a.Is4() == src.Addr().Is4() {
				ip = a
			}
		}
		dst = netip.AddrPortFrom(ip, dst.Port())
	}
	d.e.w.Transmit(&snet.Packet{Src: src, Dst: dst, Data: b})
}

// Kinds of requests a remote makes during a call.
const (
	rqOptions = iota
	rqInvite
	rqBye
	rqOdd
	rqStale
	rqOther
	rqAck
	rqRepeat
)

func (d *director) request(c *Call, answered bool) {
	if rt.Over() || c.closed || c.weak {
		return
	}
	var inv *SM
	for _, o := range c.log {
		if o.K == 's' && o.M != nil && o.Perr == nil && !o.M.Resp && o.M.Method == "INVITE" {
			inv = o.M
		}
	}
	if inv == nil || len(inv.Contact) == 0 {
		return
	}
	socks := d.e.w.OpenSocks(c.name)
	if len(socks) == 0 {
		return
	}
	s := socks[W(len(socks))]
	u := d.e.uas[s.Remote().String()]
	if s.Wild() {
		u = d.e.peers[W(len(d.e.peers))]
	}
	if u == nil || u.conn == nil {
		return
	}
	if c.rcseq == 0 {
		c.rcseq = 10 + W(1000)
		if F(200) {
			c.rcseq = W(3) - 1
		} else if F(200) {
			c.rcseq = pick(1<<8, 1<<15, 1<<16, 1<<24, 1<<30, 1<<31-1000) - 1 - W(8)
		}
	}
	kind := weighted(d.k.ReqW)
	if c.pinged && F(900) {
		kind = rqOptions // Keeping it alive.
	}
	if !c.answer && (kind == rqInvite || kind == rqRepeat) {
		kind = rqOptions
	}
	m := &SM{RURI: inv.Contact[0].U.String(), Vias: []Via{u.via()}, CallID: inv.CallID, MF: pick(70, 69, 1, 10), To: inv.From, From: inv.To}
	m.From.P = append([]Prm(nil), m.From.P...)
	for _, st := range c.states {
		if st.rem != nil {
			m.From.P = []Prm{{"tag", st.rem.tag, true}}
		}
	}
	if m.From.Tag() == "" {
		m.From.P = []Prm{{"tag", u.tagN(), true}}
	}
	// Further proxies on the way, sometimes.
	for n := weighted([]int{6, 2, 1}); n > 0; n-- {
		m.Vias = append(m.Vias, Via{Host: fmt.Sprintf("192.0.2.%d", n), Port: pick(0, 5060, 6000), P: []Prm{{"branch", fmt.Sprint("z9hG4bKhop", n), true}}})
	}
	if F(200) {
		setP(m.Vias[0].P, "branch", m.Vias[0].Branch())
		m.Vias[0].P = append(m.Vias[0].P, Prm{Name: "rport"})
	}
	if F(200) {
		m.H = append(m.H, Hdr{"X-Thing", "thing"})
	}
	if F(300) {
		m.RR = []NA{d.e.routeHop(u)}
	}
	c.rcseq += 1 + W(3)
	if F(50) && c.rcseq < 1<<30 {
		c.rcseq += pick(1<<8, 1<<16, 1<<29)
	}
	m.CSeq = c.rcseq
	method := "OPTIONS"
	switch kind {
	case rqInvite:
		method = "INVITE"
		m.Contact = []NA{d.e.contactFor(u)}
		if F(100) {
			m.Contact = nil
		}
		if F(d.k.Sdp) || F(400) {
			m.CType, m.Body = d.e.remoteSDP(d.k, u.ap.Addr())
		}
	case rqBye:
		method = "BYE"
	case rqOdd:
		method = []string{"INFO", "UPDATE", "MESSAGE", "FOO", "NOTIFY", "REFER", "REGISTER", "PRACK", "SUBSCRIBE", "CANCEL", "bye", "Invite"}[W(12)]
	case rqStale:
		method = []string{"OPTIONS", "BYE", "INVITE", "INFO"}[W(4)]
		if method == "INVITE" && !c.answer {
			method = "BYE"
		}
		m.CSeq -= 3 + W(8)
		if F(100) {
			m.CSeq -= pick(1<<8, 1<<16)
		}
		if m.CSeq < 0 {
			m.CSeq = 0
		}
		m.Contact = []NA{d.e.contactFor(u)}
		if F(400) {
			m.CType, m.Body = d.e.remoteSDP(d.k, u.ap.Addr())
		}
	case rqOther:
		method = []string{"OPTIONS", "BYE", "INVITE", "INFO", "ACK", "CANCEL"}[W(6)]
		m.CallID = pickS("unknown@call", inv.CallID+"x", inv.CallID[1:], recase(inv.CallID))
		m.Contact = []NA{d.e.contactFor(u)}
		if F(400) {
			m.CType, m.Body = d.e.remoteSDP(d.k, u.ap.Addr())
		}
	case rqAck:
		method = "ACK"
		if F(500) {
			m.CSeq = inv.CSeq
		}
	case rqRepeat:
		// The last re-INVITE once more.
		if l := c.reinv[c.rlast]; l != nil {
			rt.Stat("op.request.repeat")
			u.send(0, d.dst(s, u), l)
			return
		}
	}
	if F(d.k.Alien) {
		if F(500) {
			m.Alien = alien()
		} else {
			m.MF = pick(0, -1)
		}
	}
	if kind == rqOther && F(100) {
		m.Alien = alien()
	}
	m.Method, m.CMethod = method, method
	if method == "INVITE" && m.CallID == inv.CallID {
		c.reinv[m.CSeq] = m
		c.rlast = m.CSeq
	}
	rt.Stat("op.request." + method)
	u.send(0, d.dst(s, u), m)
	if F(150) {
		u.send(d.k.delay(), d.dst(s, u), m)
	}
}

func (d *director) dst(s *snet.UDPConn, u *UAS) netip.AddrPort {
	if !s.Wild() {
		return s.Local()
	}
	ip := d.ua.IPs[0]
	for _, a := range d.ua.IPs {
		if a.Is4() == u.ap.Addr().Is4() {
			ip = a
		}
	}
	return netip.AddrPortFrom(ip, s.Local().Port())
}

// hostility sends hostile datagrams at any time.
func (d *director) hostility() {
	n := 1 + W(pick(5, 20, 60))
	for ; n > 0; n-- {
		at := time.Duration(W(int(d.k.Horizon)))
		if F(600) {
			at = time.Duration(W(int(d.k.Horizon) / 8))
		}
		rt.After(at, func() {
			if rt.Over() || len(d.e.list) == 0 {
				return
			}
			c := d.call()
			if c.closed {
				return
			}
			b := d.hostile(c)
			for n := weighted([]int{0, 80, 10, 5}); n > 0; n-- {
				rt.Stat("fault.hostile_datagram")
				d.injectRaw(c, b)
			}
		})
	}
}

// hostile makes up something an attacker who saw all of the call so far would
// send it, or what is left of something decent by the time it got through.
func (d *director) hostile(c *Call) []byte {
	var sent []*SM
	for _, o := range c.log {
		if o.K == 's' && o.M != nil && o.Perr == nil {
			sent = append(sent, o.M)
		}
	}
	if len(sent) == 0 || F(50) {
		b := make([]byte, W(300))
		for i := range b {
			b[i] = byte(W(256))
		}
		return b
	}
	ref := sent[len(sent)-1]
	if F(400) {
		ref = sent[W(len(sent))]
	}
	u := d.e.peers[W(len(d.e.peers))]
	var m *SM
	if kind := W(10); kind < 5 && !ref.Resp {
		m = ref.respond(pick(200, 180, 183, 302, 301, 503, 404, 487, 100, 199, 299, 300, 399, 699, 401, 202, 600, 700, 999, 101), pickS("", "x", "evil"))
		if F(200) {
			m.CMethod = pickS("INVITE", "BYE", "CANCEL", "ACK")
		}
	} else if kind < 9 {
		meth := pickS("OPTIONS", "INVITE", "BYE", "ACK", "CANCEL", "PRACK", "INFO", "REGISTER")
		m = &SM{Method: meth, CMethod: meth, RURI: "sip:x@" + uaIP4, Vias: []Via{u.via()}, CallID: ref.CallID, CSeq: 1 + W(1<<30), MF: pick(70, 0, 1, -1, 255, 1<<31), From: ref.To, To: ref.From}
		if F(200) {
			m.CallID = "other"
		}
		if F(200) {
			m.CSeq = ref.CSeq
		}
	} else {
		m = new(SM)
		*m = *ref
	}
	// Contacts, routes and descriptions with a sting.
	switch W(6) {
	case 0, 1:
		m.Contact = []NA{d.e.contactFor(u)}
	case 2:
		m.Contact = nil
	case 3:
		m.Contact = []NA{{U: URI{Scheme: pickS("sip", "sips", "tel", "mailto"), User: pickS("", "x"), Host: pickS("", "0.0.0.0", "255.255.255.255", "::1", "a..b", "-", strings.Repeat("a", 300), "gone.example", uaIP4, "127.0.0.1"), Port: pick(0, 1, 65535)}}}
	}
	if F(200) {
		m.RR = []NA{{U: URI{Scheme: "sip", Host: pickS("", uaIP4, "gone.example", "192.0.2.1"), Port: pick(0, 5060, 1), P: []Prm{{Name: pickS("lr", "x")}}}}}
		if F(500) {
			m.RR = append(m.RR, m.RR[0])
		}
	}
	switch k := W(10); {
	case k < 2:
		m.CType, m.Body = "application/sdp", describe(pickS("1.2.3.4", "::1", "0.0.0.0", "x"), "198.51.100.7", "198.51.100.8", pick(4000, 0, 1, 65535), !F(120))
	case k < 5:
		m.CType, m.Body = "application/sdp", pickS(
			"v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 1.2.3.4\r\nt=0 0\r\nm=audio 4000 RTP/AVP 0\r\n",
			"v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 x\r\nt=0 0\r\nm=audio 0 RTP/AVP 0\r\n",
			"v=0\r\no=- 1 1 IN IP6 ::1\r\ns=-\r\nc=IN IP6 ::1\r\nt=0 0\r\nm=video 65535 RTP/AVP 31\r\n",
			"v=0\r\n", "", "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 1.2.3.4\r\nt=0 0\r\nm=audio 4000 RTP/AVP 101\r\na=rtpmap:101 telephone-event/8000\r\na=fmtp:101 0-15\r\na=ptime:20\r\na=sendrecv\r\n")
	}
	switch W(12) {
	case 0:
		m.Vias = nil
	case 1:
		m.From = NA{}
	case 2:
		m.To = NA{}
	case 3:
		m.CallID = ""
	case 4:
		m.Vias = append(m.Vias, m.Vias...)
	case 5:
		m.CSeq = pick(0, -1, 1<<31-1, 1<<31, 1<<40)
	case 7: // Lots of something.
		n := pick(17, 33, 65, 129, 257)
		switch W(7) {
		case 0:
			for ; n > 0; n-- {
				m.H = append(m.H, Hdr{pickS("X-A", "Allow", "Subject", "P-Asserted-Identity", "Warning", "Supported"), pickS("1", "<sip:a@b>", "")})
			}
		case 1:
			for ; n > 0; n-- {
				m.Vias = append(m.Vias, Via{Host: "192.0.2.3", Port: 5060, P: []Prm{{"branch", fmt.Sprint("z9hG4bK", n), true}}})
			}
		case 2:
			for ; n > 0; n-- {
				m.RR = append(m.RR, NA{U: URI{Scheme: "sip", Host: uaIP4, P: []Prm{loose()}}})
			}
		case 3:
			for ; n > 0; n-- {
				m.Contact = append(m.Contact, d.e.contactFor(u))
			}
		case 4:
			for ; n > 0; n-- {
				m.From.P = append(m.From.P, Prm{fmt.Sprint("p", n), "v", true})
			}
		case 5:
			m.To.Display, m.CallID = strings.Repeat("a", n*4), strings.Repeat("b", n*2)
		case 6:
			m.CType, m.Body = "application/sdp", "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 1.2.3.4\r\nt=0 0\r\n"+strings.Repeat(pickS("m=audio 4000 RTP/AVP 0"+strings.Repeat(" 8", n)+"\r\n", "m=audio 4000 RTP/AVP 0\r\n", "a=x\r\n", "a=rtpmap:0 PCMU/8000\r\n", "m=video 4000 RTP/AVP 31\r\n", "\r\n", "c=IN IP4 1.2.3.4\r\n"), n)
		}
	case 6:
		m.H = append(m.H, Hdr{pickS("Max-Forwards", "Content-Length", "CSeq", "Via", "Contact", "Route", "Expires"), pickS("", "0", "-1", "x", "99999999999999999999")})
	}
	b := m.Bytes()
	if F(150) {
		b = bytes.Replace(b, []byte("SIP/2.0"), []byte(pickS("SIP/3.0", "SIP/2.1", "SIP/0.0", "SIP/255.255", "sip/2.0")), 1+W(2))
	}
	if F(600) {
		b = nasty(b)
	}
	return b
}

// probe finds out if calls that were attacked and live on still answer.
func (d *director) probe() {
	type asked struct {
		c  *Call
		br string
		n  int
		s  *snet.UDPConn
	}
	var l []asked
	for i, c := range d.e.list {
		if !c.weak || c.closed {
			continue
		}
		var inv *SM
		for _, o := range c.log {
			if o.K == 's' && o.M != nil && o.Perr == nil && !o.M.Resp && o.M.Method == "INVITE" {
				inv = o.M
			}
		}
		for _, s := range d.e.w.OpenSocks(c.name) {
			if s.Wild() || inv == nil || s.PendingErr() {
				continue
			}
			br := fmt.Sprint("z9hG4bKprobe", i)
			m := &SM{Method: "OPTIONS", CMethod: "OPTIONS", RURI: "sip:x@" + uaIP4, Vias: []Via{{Host: s.Remote().Addr().String(), Port: int(s.Remote().Port()), P: []Prm{{"branch", br, true}}}}, CallID: inv.CallID, CSeq: 1<<31 - 2, MF: 70, From: inv.To, To: inv.From}
			d.e.w.Transmit(&snet.Packet{Src: s.Remote(), Dst: s.Local(), Data: m.Bytes()})
			l = append(l, asked{c, br, len(c.log), s})
		}
	}
	if len(l) == 0 {
		return
	}
	over := false
	rt.After(d.k.Lat+time.Millisecond, func() { over = true })
	d.e.Observe(func() bool { return over })
	if rt.Over() {
		return
	}
	for _, a := range l {
		moved := true
		for _, s := range d.e.w.OpenSocks(a.c.name) {
			moved = moved && s != a.s
		}
		if a.c.closed || moved {
			continue
		}
		rt.Stat("op.probe")
		ok := false
		for _, o := range a.c.log[a.n:] {
			ok = ok || o.K == 's' && o.M != nil && o.Perr == nil && o.M.Resp && o.M.Via().Branch() == a.br
		}
		if !ok {
			rt.Fail([]string{"C01"}, "deaf", "call %s lives but doesn't answer an in-dialog request after hostile datagrams; its tasks: %v", a.c.name, rt.Alive(a.c.name))
			return
		}
	}
}

// recase makes an identifier that differs only in the case of its letters.
func recase(s string) string {
	for _, t := range []string{strings.ToUpper(s), strings.ToLower(s)} {
		if t != s {
			return t
		}
	}
	return s + "x"
}
