package main

import (
	"fmt"
	"net"
	"net/netip"
	"strings"
	"time"

	"github.com/jart/gosip/zsim/rt"
	"github.com/jart/gosip/zsim/snet"
)

// Knobs shape a scenario with calls.
type Knobs struct {
	RandFail      int // share of reads of the random source that fail
	Interval, Max int // resend configuration
	Lat           time.Duration
	Plans         []int
	Sdp           int // share of messages with a session description
	Routes        int // share of answers with a record route
	CancelDeaf    int
	ByeDeaf       int
	ByeOdd        int
	AckLost       int
	Loose         bool
	Fam           int // 0: IPv4, 1: IPv6, 2: both
	Calls         int
	Peers         int
	Horizon       time.Duration
	Long          bool
	Loss, Dup     int
	Reorder       int
	Jitter        time.Duration
	Dest          []int // weights: literal, host, srv, bad name
	DeadPM        int   // share of addresses nobody listens at
	DownPM        int   // share of hosts that swallow everything
	DialFail      int
	SrvBad        int // share of SRV targets that don't resolve
	Actions       int // how many director actions at most
	ActW          []int
	HangTrig      int // chance of hanging up at any one thing the call does
	InDialog      int // in-dialog requests after the answer, at most
	ReqW          []int
	StrayTrig     int
	SpecPM        int // share of fields filled in by the application
	Rich          int // share of session descriptions as all kinds of equipment make them
	Slow          int
	WriteErr      int
	Victim        string // only messages that start like this fail to be sent
	Alien         int    // share of requests with a strange version or no hops left
	DNSErr        int
	Weak          bool
	NoEnd         bool
	Hostile       int
	Media         bool
}

const (
	acNothing = iota
	acHangup
	acStray
	acRequest
	acICMP
	acBreak
	acFreeze
	acCut
	acPeerCrash
	acPeerBack
	nActs
)

const uaIP4, uaIP6 = "203.0.113.1", "2001:db8::1"

// build makes hosts, peers and names.
func (e *Env) build(k *Knobs) *snet.Host {
	w := e.w
	var ips []string
	if k.Fam != 1 {
		ips = append(ips, uaIP4)
	}
	if k.Fam != 0 {
		ips = append(ips, uaIP6)
	}
	ua := w.AddHost("ua", ips...)
	e.interval = int64(k.Interval) * int64(time.Millisecond)
	e.max = k.Max
	w.Latency = func(a, b netip.Addr) time.Duration { return k.Lat }
	w.LossPM, w.DupPM, w.ReorderPM, w.Jitter = k.Loss, k.Dup, k.Reorder, k.Jitter
	if k.WriteErr > 0 {
		w.WriteErr = func(c *snet.UDPConn, b []byte) error {
			if c.Handler == nil && w.Faulty() && strings.HasPrefix(string(b), k.Victim) && rt.Flip(rt.NET, k.WriteErr) {
				return errNoBufs
			}
			return nil
		}
	}
	var aps []netip.AddrPort
	for i := 0; i < k.Peers; i++ {
		var hips []string
		a4, a6 := fmt.Sprintf("198.51.100.%d", 10+i), fmt.Sprintf("2001:db8:1::%x", 16+i)
		f := k.Fam
		if f == 2 && i > 0 {
			f = W(3)
		}
		if f != 1 {
			hips = append(hips, a4)
		}
		if f != 0 {
			hips = append(hips, a6)
		}
		h := w.AddHost(fmt.Sprintf("peer%d", i), hips...)
		for _, ip := range hips {
			for _, port := range []uint16{5060, 5080} {
				if port == 5080 && !F(300) {
					continue
				}
				ap := netip.AddrPortFrom(netip.MustParseAddr(ip), port)
				aps = append(aps, ap)
				u := e.NewUAS(k, h, ap)
				if i > 0 && F(k.DeadPM) {
					u.Crash()
				}
				if F(k.DialFail) {
					e.dialFail[ap.String()] = true
				}
			}
		}
		if i > 0 && F(k.DownPM) {
			h.Down = true
			rt.Stat("fault.host_down")
		}
		w.DNS["media.example"] = []netip.Addr{netip.MustParseAddr("192.0.2.88")}
		w.DNS["media6.example"] = []netip.Addr{netip.MustParseAddr("2001:db8::88")}
		name := fmt.Sprintf("p%d.example", i)
		w.DNS[name] = append([]netip.Addr(nil), h.IPs...)
		if F(k.DNSErr) {
			w.DNSErr[name] = &net.DNSError{Err: "server misbehaving", Name: name, IsTemporary: true}
		}
	}
	for i := 0; i < 3; i++ {
		name := fmt.Sprintf("s%d.example", i)
		n := 1 + W(4)
		if i == 2 {
			n = W(3)
		} else if F(40) {
			n = 5 + W(20)
		}
		var l []*net.SRV
		for j := 0; j < n; j++ {
			ap := aps[W(len(aps))]
			t := ap.Addr().String()
			if F(300) {
				t = fmt.Sprintf("p%d.example.", W(k.Peers))
			}
			if F(k.SrvBad) {
				t = "gone.example."
			}
			l = append(l, &net.SRV{Target: t, Port: ap.Port(), Priority: uint16(j)})
		}
		w.SRVs["_sip._udp."+name] = l
		w.DNS[name] = w.DNS[fmt.Sprintf("p%d.example", W(k.Peers))]
		if F(k.DNSErr) {
			w.DNSErr["_sip._udp."+name] = &net.DNSError{Err: "server misbehaving", Name: name, IsTemporary: true}
		}
	}
	if k.Loose && F(k.DialFail/4) && e.distinct() {
		// Otherwise it's left open whether the socket to one address serves the
		// next one, if that's the same.
		e.bindFail = true
		rt.Stat("fault.bind")
	}
	return ua
}

// dest is a URI to call or to be redirected to.
func (e *Env) dest(k *Knobs, user string) URI {
	u := URI{Scheme: "sip", User: user}
	switch weighted(k.Dest) {
	case 0:
		p := e.peers[W(len(e.peers))]
		u.Host, u.Port = p.ap.Addr().String(), int(p.ap.Port())
		if u.Port == 5060 && F(400) {
			u.Port = 0
		}
	case 1:
		u.Host = fmt.Sprintf("p%d.example", W(k.Peers))
		if F(500) {
			u.Port = pick(5060, 5080)
		}
	case 2:
		u.Host = fmt.Sprintf("s%d.example", W(3))
		if F(100) {
			u.Port = 5060
		}
	case 3:
		u.Host = "gone.example"
	}
	if F(k.SpecPM) {
		u.P = append(u.P, Prm{"user", "phone", true})
		if F(300) {
			u.P = append(u.P, Prm{Name: "nofork"})
		}
	}
	odd(&u, k.SpecPM/5)
	return u
}

// odd makes a URI one that needs escaping.
func odd(u *URI, p int) {
	if u.User != "" && F(p) {
		u.User = oddUser()
	}
	if F(p / 2) {
		u.P = append(u.P, pickP(Prm{"x", escaped(), true}, oddParam()))
	}
}

func (e *Env) target(u *UAS) NA {
	users := []string{"bob2", "carol", "dave", "bob"}
	x := u.uri(users[W(len(users))])
	if !F(350) {
		x = e.dest(u.k, users[W(len(users))])
	}
	n := NA{U: x}
	if F(200) {
		n.Display = "Moved, \"really\""
	}
	if F(200) {
		n.P = append(n.P, Prm{"q", "0.7", true})
	}
	return n
}

func (e *Env) contactFor(u *UAS) NA {
	x := u.uri("bob")
	switch weighted([]int{70, 10, 10, 4, 3}) {
	case 1:
		p := e.peers[W(len(e.peers))]
		x = p.uri("bob")
	case 2:
		x.Host, x.Port = fmt.Sprintf("p%d.example", W(u.k.Peers)), pick(0, 5060, 5080)
	case 3:
		x.Host, x.Port = "s0.example", 0
	case 4:
		x.Host, x.Port = "gone.example", 0
	}
	if F(200) {
		x.P = append(x.P, Prm{"transport", "udp", true})
	}
	odd(&x, u.k.SpecPM/5)
	n := NA{U: x}
	if F(100) {
		n.Display = "Bob"
	}
	return n
}

func (e *Env) routeHop(u *UAS) NA {
	p := u
	if F(500) {
		p = e.peers[W(len(e.peers))]
	}
	x := p.uri("")
	if !F(150) {
		x.P = []Prm{loose()}
	}
	return NA{U: x}
}

func (e *Env) byCallID(id string) *Call {
	if n, ok := e.callids[id]; ok {
		return e.calls[n]
	}
	return nil
}

// remoteSDP makes up a session description.
func (e *Env) remoteSDP(k *Knobs, ip netip.Addr) (string, string) {
	a := ip.String()
	switch W(5) {
	case 1:
		a = "192.0.2.77"
	case 2:
		a = "2001:db8::77"
	case 3:
		if F(300) {
			a = "0.0.0.0" // on hold
		} else if F(100) {
			rt.Stat("op.named_media")
			a = pickS("media.example", "media6.example", "Media.Example", "nowhere.example")
		}
	}
	fam := "IP4"
	if strings.Contains(a, ":") || a == "media6.example" {
		fam = "IP6"
	}
	port := 16384 + 2*W(8000)
	if F(30) {
		port = 0
	}
	if F(k.Rich) {
		return "application/sdp", describe(a, pickS("198.51.100.7", "2001:db8::dec0", "0.0.0.0"), pickS(a, "198.51.100.8"), port, !F(120))
	}
	var b strings.Builder
	fmt.Fprintf(&b, "v=0\r\no=- %d %d IN %s %s\r\ns=-\r\n", 1000+W(9), 1000+W(9), fam, a)
	if F(100) {
		b.WriteString("i=about nothing\r\n")
	}
	fmt.Fprintf(&b, "c=IN %s %s\r\nt=0 0\r\n", fam, a)
	audio := !F(120)
	if F(150) || !audio {
		fmt.Fprintf(&b, "m=video %d RTP/AVP 31\r\na=rtpmap:31 H261/90000\r\n", 20000+W(100))
	}
	if audio {
		fmt.Fprintf(&b, "m=audio %d RTP/AVP 0 101\r\na=rtpmap:0 PCMU/8000\r\na=rtpmap:101 telephone-event/8000\r\na=fmtp:101 0-16\r\n", port)
	}
	if F(300) {
		b.WriteString("a=ptime:20\r\n")
	}
	if F(300) {
		b.WriteString([]string{"a=sendrecv\r\n", "a=sendonly\r\n", "a=recvonly\r\n"}[W(3)])
	}
	return "application/sdp", b.String()
}

// stimTags names the properties that govern what a message may cause.
func (e *Env) stimTags(c *Call, m *SM) []string {
	if !m.Resp {
		return []string{"C09"}
	}
	for _, s := range c.states {
		if m.CallID == c.callID(s) && (rspMatch(s.req, m) || s.cancel && rspMatch(s.can, m)) {
			return nil
		}
	}
	return []string{"C10"}
}

func (c *Call) callID(s *mst) string {
	if s.req != nil {
		return s.req.CallID
	}
	return ""
}

// state records what state a call got into, as a measure of coverage.
func (e *Env) state(c *Call, s *mst) {
	r := s.redirects
	if r > 3 {
		r = 3
	}
	e.mstates[fmt.Sprint(s.ended, s.st, s.hangup, s.cancel, s.cancelled, s.bye, s.resends, s.reqDl >= 0, s.respOn, s.respN, len(s.routes), r, s.rem != nil, len(s.route), c.loose)] = true
}

// spec draws what the application fills in.
func (e *Env) spec(k *Knobs) *CallSpec {
	sp := &CallSpec{Loose: k.Loose}
	sp.RURI = e.dest(k, "bob").String()
	p := k.SpecPM
	if F(k.Sdp) {
		sp.SDP = true
		sp.SDPPort = 16384 + 2*W(8000)
		if F(p) {
			sp.SDPAddr = pickS("192.0.2.55", "2001:db8::55")
		}
		sp.codecs()
	} else if F(p) {
		sp.Body = "hello\r\n\r\nworld"
	}
	if F(p) {
		for n := some(2); n > 0; n-- {
			q := e.peers[W(len(e.peers))]
			u := URI{Scheme: "sip", Host: q.ap.Addr().String(), Port: int(q.ap.Port())}
			if F(200) {
				u = e.dest(k, "")
				u.P = nil
			}
			if !F(250) {
				u.P = []Prm{loose()}
			}
			sp.Route = append(sp.Route, NA{U: u})
		}
	}
	if F(p) {
		sp.MF = pick(50, 70, 40, 255, 1)
	}
	if F(p / 3) {
		sp.ViaHost = "ua.example"
	}
	if F(p) {
		sp.ContactHost = pickS("ua.example", uaIP4)
		if F(500) {
			sp.CUser = "alice"
		}
	}
	if F(p) {
		sp.From = &NA{Display: pickS("", "Alice", `Al "quoted" ice`, quotable()), U: URI{Scheme: "sip", User: "alice", Host: "home.example"}}
		if F(500) {
			sp.From.P = []Prm{{"tag", "mytag" + fmt.Sprint(len(e.list)) + pickS("", "", "", chars(tokenChars, false)), true}}
		}
		if F(500) {
			sp.From.P = append(sp.From.P, Prm{"x-who", pickS("me", quotable()), true})
		}
		odd(&sp.From.U, 200)
	}
	if F(p) {
		sp.To = &NA{Display: pickS("", "Bob", quotable()), U: URI{Scheme: "sip", User: "robert", Host: "elsewhere.example", Port: pick(0, 5099)}}
		odd(&sp.To.U, 200)
	}
	if F(p) {
		sp.CallID = fmt.Sprintf("call-%d%s@here", len(e.list), pickS("", "", "", chars(wordChars, false)))
	}
	if F(p) {
		sp.CSeq = 1 + W(100000)
	}
	if F(p) {
		sp.UA = "tester/1.0"
	}
	if F(p) {
		sp.X = append(sp.X, Hdr{"X-Wing", pickS("red five", text())})
		if F(500) {
			sp.X = append(sp.X, Hdr{"X-Files", "s01e01; \"quoted\", more"})
		}
		if F(500) {
			sp.X = append(sp.X, Hdr{"Subject", "lunch"})
		}
		if F(500) {
			sp.X = append(sp.X, Hdr{"Supported", "100rel, timer"})
		}
		if F(500) {
			sp.X = append(sp.X, Hdr{"Authorization", `Digest username="bob", realm="atlanta.example.com", nonce="ea9c8e88", response="6629fae4"`})
		}
		if F(500) {
			sp.X = append(sp.X, Hdr{"Proxy-Authorization", `Digest username="alice", realm="biloxi.example.com", response="e966c932"`})
		}
	}
	return sp
}

func pickP(l ...Prm) Prm { return l[W(len(l))] }

func pickS(l ...string) string { return l[W(len(l))] }

// distinct tells if no list of addresses has one twice.
func (e *Env) distinct() bool {
	for _, l := range e.w.SRVs {
		seen := map[string]bool{}
		for _, s := range l {
			h := strings.TrimSuffix(s.Target, ".")
			if a := e.w.DNS[h]; len(a) > 0 {
				h = a[0].String()
				for _, x := range a {
					if x.Is4() {
						h = x.String()
						break
					}
				}
			}
			if k := fmt.Sprint(h, s.Port); seen[k] {
				return false
			} else {
				seen[k] = true
			}
		}
	}
	return true
}
