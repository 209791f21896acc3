package main

import (
	"bytes"
	"fmt"
	"net"
	"strconv"
	"strings"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zsim/rt"
	"github.com/jart/gosip/zsim/scrand"
)

// What simulated peers say to transports, and how they spell it.

func P1(name, value string) Prm { return Prm{name, value, true} }

func (p *tpeer) display() string {
	return pickS("", "", "Bob", "Bob B", "Bo \"b\", <b>;x", "Jürgen ☎", "a\\b", quotable())
}

// person is an address of somebody.
func (p *tpeer) person(user string) NA {
	u := URI{Scheme: "sip", User: user, Host: pickS("home.example", p.host, "2001:db8::beef", "far.example"), Port: pick(0, 0, 5060, 5999)}
	if F(100) {
		u.User += ":secret"
	} else if F(100) {
		u.User = oddUser()
	}
	if F(50) {
		u.Headers = oddHeaders()
	}
	if F(150) {
		u.P = append(u.P, P1("user", "phone"))
	}
	if F(50) {
		u.P = append(u.P, P1("x", pickS("%20%41y", escaped())))
	} else if F(50) {
		u.P = append(u.P, oddParam())
	}
	if F(20) {
		u.Host = "h" + chars(alnum, false) + pickS(".", "-0.", "--.") + pickS("example", "Example", "e-1")
	}
	return NA{Display: p.display(), U: u}
}

func (p *tpeer) hop(t *tpt, self int) NA {
	l := t.conn.Local()
	u := URI{Scheme: "sip", Host: pickS(p.host, "proxy.example", "192.0.2.7", "2001:db8::7"), Port: pick(0, 5060, 5090)}
	if F(self) {
		u.Host, u.Port = l.Addr().String(), int(l.Port())
		if u.Port == 5060 && F(500) {
			u.Port = 0
		} else if F(100) && u.Port == 5061 {
			u.Scheme, u.Port = "sips", pick(5061, 5061, 5060)
		} else if u.Port != 0 && F(30) {
			u.Scheme = "sips" // What port that is when it's left out isn't agreed upon.
		} else if F(100) {
			u.Port++ // Almost.
		} else if F(50) {
			u.Port = 0 // Means 5060.
		}
	}
	n := NA{U: u}
	if !F(200) {
		n.U.P = append(n.U.P, loose())
	}
	if F(100) {
		n.P = append(n.P, P1("ftag", "x y"))
	}
	return n
}

// request makes up a request for a transport.
func (p *tpeer) request(t *tpt, method string) *SM {
	e := p.e
	if method == "" {
		l := []string{"OPTIONS", "INVITE", "REGISTER", "MESSAGE", "SUBSCRIBE", "NOTIFY", "INFO", "BYE", "ACK", "CANCEL", "PRACK", "REFER", "UPDATE", "PUBLISH", "X-Foo.bar"}
		method = l[W(len(l))]
	}
	l := t.conn.Local()
	m := &SM{Method: method, CMethod: method, CSeq: pick(0, 1, 2, 31, 70000, 2147483647), MF: pick(70, 70, 69, -1, 1, 255)}
	u := URI{Scheme: "sip", User: pickS("", "alice", "alice"), Host: l.Addr().String(), Port: int(l.Port())}
	switch W(5) {
	case 1:
		u.Host, u.Port = pickS("example.com", "203.0.113.200"), pick(0, 5060, 6000)
	case 2:
		u.User = pickS("alice:pw", "+1-201-555-0123", "a%20b", "!x", oddUser())
		u.P = append(u.P, P1("transport", "udp"))
	case 3:
		if F(300) {
			u.Headers = oddHeaders()
		}
	}
	m.CallID = fmt.Sprintf("c%d%s@%s", e.seq(), pickS("", "-a.b", "{x}/[y]", "~!%", chars(wordChars, false)), pickS(p.host, "a.example"))
	if strings.Contains(p.host, ":") && strings.HasSuffix(m.CallID, p.host) {
		m.CallID = fmt.Sprintf("c%d", e.seq())
	}
	m.From = p.person("from")
	m.From.P = append(m.From.P, P1("tag", fmt.Sprint("f", e.seq())))
	if F(50) {
		m.From.P[0].Value += "-" + chars(tokenChars, false)
	}
	if F(100) {
		m.From.P = append(m.From.P, P1("note", pickS("two words", "q\"uo\\te", "[::1]:5", "ü", quotable())))
	}
	if F(30) {
		m.From.P = nil // RFC 2543
	}
	m.To = p.person("to")
	if F(300) {
		m.To.P = append(m.To.P, P1("tag", fmt.Sprint("t", e.seq())))
	}
	v := Via{Host: p.host, Port: p.port}
	v.P = append(v.P, P1("branch", fmt.Sprint("z9hG4bK", e.seq())))
	if F(50) {
		v.P[0].Value += "-" + chars(tokenChars, false)
	}
	if F(20) {
		v.P = append(v.P, P1("y-"+chars(tokenChars, false), pickS(quotable(), chars(tokenChars, false))))
	}
	switch W(6) {
	case 1:
		v.P = append(v.P, Prm{Name: "rport"})
	case 2:
		v.P = append([]Prm{{Name: "rport"}}, v.P...)
	case 3:
		if F(300) {
			v.P = append(v.P, P1("rport", pickS("1", "70000", "x", strconv.Itoa(int(p.ap.Port())))))
		}
	}
	if F(60) {
		v.P = append(v.P, P1("received", pickS("192.0.2.66", "evil.example", "2001:db8::66")))
	}
	if F(100) {
		v.P = append(v.P, P1("alias", ""))
		v.P[len(v.P)-1].Has = false
	}
	if F(30) {
		v.Proto = pickS("SIP/2.0/TCP", "SIP/2.0/UDP", "SIP/2.0/TLS", "SIP/2.0/udp", "sip/2.0/udp", "SIP/2.0/TLS-SCTP", "SIP/2.0/x."+chars(tokenChars, false))
	}
	m.Vias = []Via{v}
	n := W(8) - 5
	if F(20) {
		n = 5 + W(30)
	}
	for ; n > 0; n-- {
		v := Via{Host: pickS("10.9.8.7", "2001:db8::99", "inner.example"), Port: pick(0, 5060, 5077, 65535), P: []Prm{P1("branch", fmt.Sprint("z9hG4bKi", e.seq()))}}
		if F(300) {
			v.P = append(v.P, P1("received", "10.1.1.1"), P1("rport", "1024"))
		}
		m.Vias = append(m.Vias, v)
	}
	if F(e.k.Routes) {
		n := 1 + W(4)
		if F(20) {
			n = 30
		}
		for i := 0; i < n; i++ {
			m.Route = append(m.Route, p.hop(t, 350))
		}
		if F(300) { // Through a strict router.
			u = URI{Scheme: "sip", Host: l.Addr().String(), Port: int(l.Port()), P: []Prm{loose()}}
			if F(200) {
				u.P = nil
			}
			if F(100) {
				u.Port++
			}
			if F(100) {
				u.Host = pickS("198.51.100.77", "proxy.example")
			}
			if u.Port == 5060 && F(500) || F(50) {
				u.Port = 0
			}
		}
	} else if F(50) {
		u.P = append(u.P, loose())
	}
	m.RURI = u.String()
	p.common(t, m)
	return m
}

// response makes up one.
func (p *tpeer) response(t *tpt) *SM {
	q := p.request(t, "")
	for q.Method == "ACK" {
		q = p.request(t, "")
	}
	st := pick(100, 180, 183, 200, 202, 301, 404, 486, 503, 603)
	m := q.respond(st, fmt.Sprint("rt", p.e.seq()))
	m.Phrase = pickS("OK", "Not Found, really; yes", "", "Très bien", "It's (un)fine: 100/2 = [x]", "Really"+escaped(), chars(unreserved+";/?:@&=+$, \t", false)+"x")
	if strings.ContainsAny(m.Phrase, "[") {
		m.Phrase = "It's (un)fine: 100/2"
	}
	l := t.conn.Local()
	if F(500) {
		// As if it was ours.
		m.Vias = append([]Via{{Host: l.Addr().String(), Port: int(l.Port()), P: []Prm{P1("branch", fmt.Sprint("z9hG4bKours", p.e.seq()))}}}, m.Vias...)
	}
	if F(200) {
		m.RR = append(m.RR, p.hop(t, 300))
	}
	if F(50) {
		m.MF = pick(1, 2, 70)
	}
	if F(p.e.k.Routes / 20) {
		m.Route = append(m.Route, p.hop(t, 400))
	}
	p.common(t, m)
	return m
}

// some is a few, or quite a few.
func some(few int) int {
	if F(30) {
		return few + 1 + W(15)
	}
	return 1 + W(few)
}

// common adds what requests and responses have in common.
func (p *tpeer) common(t *tpt, m *SM) {
	e := p.e
	for n := W(6) - 3; n > 0; n-- {
		c := p.person(fmt.Sprint("c", n))
		if F(200) {
			c.P = append(c.P, P1("expires", "60"), P1("q", "0.7"))
		}
		m.Contact = append(m.Contact, c)
	}
	if F(150) {
		for n := some(3); n > 0; n-- {
			m.RR = append(m.RR, p.hop(t, 200))
		}
	}
	if F(400) {
		m.CType, m.Body = e.body()
	}
	for n := W(8) - 2; n > 0; n-- {
		m.H = append(m.H, e.header(p))
	}
}

// header makes up one of those nobody here cares about.
func (e *tEnv) header(p *tpeer) Hdr {
	std := []string{"Accept", "Accept-Contact", "Accept-Encoding", "Accept-Language", "Alert-Info", "Allow", "Allow-Events", "Authentication-Info", "Authorization", "Call-Info", "Content-Disposition", "Content-Encoding", "Content-Language", "Date", "Error-Info", "Event", "In-Reply-To", "MIME-Version", "Organization", "Priority", "Proxy-Authenticate", "Proxy-Authorization", "Proxy-Require", "Refer-To", "Referred-By", "Reply-To", "Require", "Retry-After", "Server", "Subject", "Supported", "Timestamp", "Unsupported", "WWW-Authenticate", "Warning", "User-Agent"}
	val := pickS("a", "one two", "x;y=\"z, w\"", "Digest realm=\"a\", nonce=\"b\\\"c\"", "<sip:a@b;c=d>;e", "Größe", "a, b, c", "1 (two) 3", "x:y", "\"unbalanced", "70", text())
	if e.k.Big > 0 && F(e.k.Big) {
		rt.Stat("op.big_message")
		val = strings.Repeat("lots of text ", 1+W(600))
		val = val[:len(val)-1]
	}
	switch weighted([]int{60, 30, 4, 4, 4}) {
	case 1:
		n := pickS("X-Thing", "Vial", "Tote", "D", "X", "Fromage", "Content-Typed", "Session-Expires", "P-Charging-Vector", "RAck", "Max", "z", "Exp", "History-Info", "Cse", "y", "X-!%*_+`'~.1", "X-"+chars(tokenChars, false))
		if F(50) {
			val = ""
		}
		return Hdr{n, val}
	case 2:
		return Hdr{"Expires", strconv.Itoa(pick(1, 60, 3600, 2147483647))}
	case 3:
		return Hdr{"Min-Expires", strconv.Itoa(pick(1, 60, 3600))}
	case 4:
		n := p.person("id")
		return Hdr{pickS("P-Asserted-Identity", "Remote-Party-ID"), n.String()}
	}
	return Hdr{std[W(len(std))], val}
}

// body makes up what a message carries.
func (e *tEnv) body() (ctype, body string) {
	switch W(6) {
	case 0, 1:
		return "application/sdp", e.sdp()
	case 2:
		return pickS("text/plain", "text/plain;charset=utf-8", "text/plain; charset=\"utf-8\"", "text/x-"+chars(tokenChars, false)+";a=b;c=\"d;e, \\\"f\"", "multipart/mixed;boundary=\"=_x (y)\""), pickS("hello", "hello\r\n\r\nVia: x\r\n", "grüß ☎", " ", "\r\n")
	case 3:
		return "application/dtmf-relay", "Signal=5\r\nDuration=160\r\n"
	case 4:
		b := make([]byte, 1+W(300))
		for i := range b {
			b[i] = byte(W(256))
		}
		return "application/octet-stream", string(b)
	}
	if F(e.k.Big) {
		rt.Stat("op.big_message")
		return "text/html", strings.Repeat("<p>this is a page. ", 1+W(3000))
	}
	return "message/sipfrag", "SIP/2.0 100 Trying\r\n"
}

func (e *tEnv) sdp() string {
	var b strings.Builder
	a, f := "192.0.2.1", "IP4"
	if F(200) {
		a, f = "2001:db8::1", "IP6"
	}
	if F(300) {
		return describe(a, pickS("198.51.100.7", "2001:db8::dec0"), pickS(a, "198.51.100.8"), pick(0, 16384, 31000, 65534), !F(120))
	}
	fmt.Fprintf(&b, "v=0\r\no=%s %d %d IN %s %s\r\ns=%s\r\n", pickS("-", "root", "bob"), W(1000000), W(1000000), f, a, pickS("-", "my session", "grüß"))
	if F(200) {
		b.WriteString("i=info = more\r\nb=AS:64\r\n")
	}
	fmt.Fprintf(&b, "c=IN %s %s\r\nt=%s\r\n", f, a, pickS("0 0", "0 0", "3034423619 3042462419"))
	if !F(100) {
		fmt.Fprintf(&b, "m=audio %d RTP/AVP 0 8 101\r\na=rtpmap:0 PCMU/8000\r\na=rtpmap:8 PCMA/8000\r\na=rtpmap:101 telephone-event/8000\r\na=fmtp:101 0-16\r\n", pick(0, 16384, 31000, 65534))
		if F(300) {
			b.WriteString("a=ptime:" + pickS("20", "30", "1") + "\r\n")
		}
		if F(400) {
			b.WriteString("a=" + pickS("sendrecv", "sendonly", "recvonly", "inactive", "rtcp:53020", "maxptime:150", "x-y:z:w") + "\r\n")
		}
		if F(200) {
			fmt.Fprintf(&b, "m=video %d RTP/AVP 97 31\r\na=rtpmap:97 H264/90000\r\na=fmtp:97 profile-level-id=42e01f;x=1\r\na=rtpmap:31 H261/90000\r\n", 20000+W(100))
		}
	} else {
		fmt.Fprintf(&b, "m=video %d RTP/AVP 97\r\na=rtpmap:97 H264/90000\r\n", 20000+W(100))
	}
	return b.String()
}

// payload makes up what an application sends.
func (e *tEnv) payload() sip.Payload {
	if F(500) {
		t, b := e.body()
		for t == "application/sdp" {
			t, b = e.body()
		}
		if i := strings.IndexByte(t, ';'); i >= 0 {
			t = t[:i]
		}
		return &sip.MiscPayload{T: t, D: []byte(b)}
	}
	s := &sdp.SDP{
		Origin: sdp.Origin{User: pickS("", "me"), ID: "1", Version: "2", Addr: "203.0.113.9"}, Addr: pickS("203.0.113.9", "2001:db8::9"),
		Session: "x y", Time: "0 0", Ptime: pick(0, 20), SendOnly: F(100),
		Audio: &sdp.Media{Proto: "RTP/AVP", Port: uint16(16384 + W(1000)), Codecs: []sdp.Codec{sdp.ULAWCodec, sdp.DTMFCodec}},
	}
	if scrand.FailRand == nil && F(300) {
		p := s.Ptime
		s = sdp.New(&net.UDPAddr{IP: net.ParseIP(s.Addr), Port: int(s.Audio.Port)}, s.Audio.Codecs...)
		s.Session, s.Time, s.Ptime = "-", "0 0", p
	}
	if F(300) {
		s.Attrs = append(s.Attrs, [2]string{"maxptime", "60"}, [2]string{"nortpproxy", ""})
	}
	return s
}

// render spells a message out.
func (e *tEnv) render(m *SM) []byte {
	odd := F(e.k.Style)
	type line struct{ name, val string }
	var groups [][]line
	ws := func() string {
		if !odd || !F(100) {
			return ""
		}
		return pickS(" ", "\t", "  ", "\r\n ", " \r\n\t")
	}
	prm := func(ps []Prm) string {
		s := ""
		for _, p := range ps {
			s += ws() + ";" + ws() + p.Name
			if p.Has {
				s += ws() + "=" + ws()
				if odd && F(50) && p.Name != "received" && p.Name != "rport" {
					s += quote(p.Value)
				} else {
					s += p.val()
				}
			}
		}
		return s
	}
	name := func(n, short string) string {
		if !odd {
			return n
		}
		if short != "" && F(400) {
			n = short
		}
		switch W(5) {
		case 0:
			n = strings.ToLower(n)
		case 1:
			n = strings.ToUpper(n)
		}
		return n
	}
	join := func(n, short string, vals []string) {
		if len(vals) == 0 {
			return
		}
		var g []line
		cur := vals[0]
		for _, v := range vals[1:] {
			if !odd && n != "Via" || odd && F(500) {
				cur += ws() + "," + pickS(" ", " ", "") + ws() + v
			} else {
				g = append(g, line{name(n, short), cur})
				cur = v
			}
		}
		groups = append(groups, append(g, line{name(n, short), cur}))
	}
	nas := func(l []NA) (r []string) {
		for _, n := range l {
			s := ""
			switch {
			case n.Display == "":
			case odd && isToken(strings.ReplaceAll(n.Display, " ", "")) && F(500):
				s = n.Display + pickS(" ", " ", "")
			default:
				s = quote(n.Display) + pickS(" ", " ", "")
			}
			if s == "" && odd && len(n.U.P) == 0 && n.U.Headers == "" && !strings.ContainsAny(n.U.User, ";?,") && F(200) {
				s = n.U.String()
			} else {
				if s != "" {
					s += ws()
				}
				s += "<" + n.U.String() + ">"
			}
			r = append(r, s+prm(n.P))
		}
		return
	}
	var vs []string
	for _, v := range m.Vias {
		p := v.Proto
		if p == "" {
			p = "SIP/2.0/UDP"
		}
		if odd && F(50) {
			p = strings.ReplaceAll(p, "/", " / ")
		}
		h := v.Host
		if strings.Contains(h, ":") {
			h = "[" + h + "]"
		}
		if v.Port != 0 {
			h += ws() + ":" + ws() + strconv.Itoa(v.Port)
		}
		vs = append(vs, p+" "+ws()+h+prm(v.P))
	}
	join("Via", "v", vs)
	join("From", "f", nas([]NA{m.From}))
	join("To", "t", nas([]NA{m.To}))
	join("Route", "", nas(m.Route))
	join("Record-Route", "", nas(m.RR))
	join("Contact", "m", nas(m.Contact))
	join("Call-ID", "i", []string{m.CallID})
	join("CSeq", "", []string{strconv.Itoa(m.CSeq) + " " + ws() + m.CMethod})
	if m.MF >= 0 {
		join("Max-Forwards", "", []string{strconv.Itoa(m.MF)})
	}
	// Those of one name stay in order.
	short := map[string]string{}
	for k, v := range compact2 {
		short[v] = k
	}
	at := map[string]int{}
	for _, h := range m.H {
		v := h.Value
		if odd && F(100) {
			v = strings.Replace(v, " ", "\r\n ", 1)
		}
		l := line{name(h.Name, short[hdrKey(h.Name)]), v}
		k := strings.ToLower(h.Name)
		if strFields[hdrKey(h.Name)] == "" && hdrKey(h.Name) != "passertedidentity" && hdrKey(h.Name) != "remotepartyid" {
			k, l.name = "x", h.Name
		}
		if i, ok := at[k]; ok {
			groups[i] = append(groups[i], l)
		} else {
			at[k] = len(groups)
			groups = append(groups, []line{l})
		}
	}
	if m.Body != "" {
		ct := m.CType
		if odd {
			ct = strings.Replace(ct, ";", ws()+";"+ws(), 1)
		}
		join("Content-Type", "c", []string{ct})
	}
	counted := !odd || !F(300)
	if counted {
		join("Content-Length", "l", []string{strconv.Itoa(len(m.Body))})
	}
	var b bytes.Buffer
	version := "SIP/2.0"
	if odd && F(50) {
		version = "sip/2.0"
	}
	if m.Resp {
		fmt.Fprintf(&b, "%s %d %s\r\n", version, m.Status, m.Phrase)
	} else {
		fmt.Fprintf(&b, "%s %s %s\r\n", m.Method, m.RURI, version)
	}
	for len(groups) > 0 {
		i := 0
		if odd {
			i = W(len(groups))
		}
		l := groups[i][0]
		if groups[i] = groups[i][1:]; len(groups[i]) == 0 {
			groups = append(groups[:i:i], groups[i+1:]...)
		}
		b.WriteString(l.name)
		if odd && F(50) {
			b.WriteString(pickS(" ", "\t", "  "))
		}
		b.WriteString(":")
		if !odd || !F(100) {
			b.WriteString(" ")
		} else {
			b.WriteString(ws())
		}
		b.WriteString(l.val)
		b.WriteString("\r\n")
	}
	b.WriteString("\r\n")
	b.WriteString(m.Body)
	if counted && odd && F(100) {
		b.WriteString(surplus())
	}
	return b.Bytes()
}

// malformed makes a datagram that is no message for sure.
func (e *tEnv) malformed(p *tpeer, t *tpt) []byte {
	m := p.request(t, "")
	b := string(m.Bytes())
	hdr := func(name, val string) string {
		i := strings.Index(b, "\r\n"+name+":")
		j := strings.Index(b[i+2:], "\r\n") + i + 2
		if val == "" {
			return b[:i] + b[j:]
		}
		return b[:i] + "\r\n" + val + b[j:]
	}
	switch W(16) {
	case 0:
		b = ""
	case 1:
		b = pickS("\r\n\r\n", "\r\n", "\x00", "\x00\x00\x00\x00")
	case 2:
		b = b[:strings.Index(b, "\r\n\r\n")]
		b = b[:len(b)-W(len(b))]
	case 3:
		m.CType, m.Body = "text/plain", "body"
		b = strings.Replace(string(m.Bytes()), "Content-Length: 4", "Content-Length: "+pickS("5", "4000", "99999999"), 1)
	case 4:
		n := pickS("From", "To", "Via")
		b = hdr(n, "")
		for n == "Via" && strings.Contains(b, "\r\nVia:") {
			b = hdr(n, "")
		}
	case 5:
		x := make([]byte, 1+W(500))
		for i := range x {
			x[i] = byte(W(256))
		}
		x[0] = byte(pick(0, 128, 255, '\n'))
		b = string(x)
	case 6:
		b = pickS("SIP/2.0\r\n", "OPTIONS sip:a@b\r\n", "OPTIONS  SIP/2.0\r\n", "GET / HTTP/1.1\r\n", "SIP/2.0 OK 200\r\n", " OPTIONS sip:a@b SIP/2.0\r\n", "HTTP/1.1 200 OK\r\n", "SIP/2.0 20 OK\r\n") + b[strings.Index(b, "\r\n")+2:]
	case 7:
		b = hdr("Call-ID", "nocolonhere")
	case 8:
		b = hdr("CSeq", "CSeq: "+pickS("x INVITE", "INVITE", "-1 INVITE", "1"))
	case 9: // STUN
		b = "\x00\x01\x00\x00\x21\x12\xa4\x42abcdefghijkl"
	case 10:
		if F(600) {
			m.CType, m.Body = "application/sdp", e.brokenSDP()
			return m.Bytes()
		}
		m.CType, m.Body = "application/sdp", pickS("hello", "v=1\r\n", "v=0\r\n", "v=0\r\no=x\r\n", "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nt=0 0\r\nm=audio 1 RTP/AVP 0\r\n")
		b = string(m.Bytes())
	case 11:
		b = "\x80\x00" + strings.Repeat("\x55", 170)
	case 12:
		b = hdr("From", "From: "+pickS("<sip:a@b", "\"x <sip:a@b>", "nobody", "<sip:>", "<>", "<sip:a@b>;tag=\"x"))
	case 13:
		b = hdr("To", "To: "+pickS("<:a@b>", "<sip:a@[::1>", "<sip:a%zz@b>", "sip a@b"))
	case 14:
		b = strings.ReplaceAll(b, "\r\n", "\n")
	case 15: // Numbers that don't fit.
		huge := pickS("99999999999999999999", "18446744073709551617", "340282366920938463463374607431768211457")
		switch W(7) {
		case 0:
			b = hdr("CSeq", "CSeq: "+huge+" "+m.Method)
		case 1:
			b = hdr("Via", fmt.Sprint("Via: SIP/2.0/UDP ", p.ap.Addr(), ":", 65536+int(p.ap.Port()), ";branch=z9hG4bKbig"))
			if !p.ap.Addr().Is4() {
				b = hdr("Via", fmt.Sprint("Via: SIP/2.0/UDP [", p.ap.Addr(), "]:", 65536+int(p.ap.Port()), ";branch=z9hG4bKbig"))
			}
		case 2:
			b = strings.Replace(b, " SIP/2.0\r", " SIP/"+pickS("258.0", "2.256", huge)+"\r", 1)
		case 3:
			b = m.Method + " sip:a@" + pickS("b:65536", "b:70596", "[::1]:131072", "1.2.3.4:99999999") + b[strings.Index(b, " SIP/2.0\r"):]
		case 4:
			b = hdr("From", "From: <sip:a@b:"+pickS("65536", "70596", huge)+">;tag=x")
		case 5:
			m.H = append(m.H, Hdr{pickS("Expires", "Max-Forwards", "Min-Expires"), huge})
			m.MF = -1
			b = string(m.Bytes())
		case 6:
			m.CType, m.Body = "application/sdp", "v=0\r\no=- 1 1 IN IP4 192.0.2.1\r\ns=-\r\nc=IN IP4 192.0.2.1\r\nt=0 0\r\nm=audio "+pickS("65556", "-5", huge)+" RTP/AVP 0\r\n"
			b = string(m.Bytes())
		}
	}
	return []byte(b)
}

// brokenSDP is a session description with one line that's wrong.
func (e *tEnv) brokenSDP() string {
	o, c, a, v, r := "o=- 1 1 IN IP4 192.0.2.1", "c=IN IP4 192.0.2.1", "m=audio 4000 RTP/AVP 0 101", "m=video 4002 RTP/AVP 31", "a=rtpmap:101 telephone-event/8000"
	switch W(6) {
	case 0:
		o = pickS("o=- 1 1 IN IP4", "o=- 1 1 IN IP4 192.0.2.1 x", "o=- 1 1 ATM IP4 192.0.2.1", "o=- 1 1 IN IP5 192.0.2.1", "o=- 1 IN IP4 192.0.2.1", "o=- 1 1 IN IP4 224.2.1.1/127", "b=AS:64")
	case 1:
		c = pickS("c=IN IP4", "c=192.0.2.1", "c=ATM IP4 192.0.2.1", "c=IN IP5 192.0.2.1", "c=IN IP4 192.0.2.1 x", "b=AS:64")
	case 2:
		a = pickS("m=audio 4000 RTP/AVP", "m=audio 4000", "m=audio x RTP/AVP 0", "m=audio -1 RTP/AVP 0", "m=audio 4000 RTP/AVP x", "m=audio 4000 RTP/AVP 0 256", "m=audio 4000 RTP/AVP -1", "m=audio 65536 RTP/AVP 0")
	case 3:
		v = pickS("m=video 4000 RTP/AVP", "m=video 4000", "m=video x RTP/AVP 31", "m=video 4000 RTP/AVP x", "m=video 4000 RTP/AVP 31 256", "m=video 65536 RTP/AVP 31")
	case 4:
		r = pickS("a=rtpmap:101 telephone-event", "a=rtpmap:101 telephone-event/x", "a=rtpmap:101 telephone-event/")
	case 5:
		v += "\r\n" + pickS("a=rtpmap:31 H261", "a=rtpmap:31 H261/", "a=rtpmap:31 H261/x")
	}
	l := []string{"v=0", o, "s=-", c, "t=0 0", a, r, v}
	if F(500) {
		l = []string{"v=0", o, "s=-", c, "t=0 0", v, a, r}
	}
	return strings.Join(l, "\r\n") + "\r\n"
}

// oddity makes one of those messages which are known to be mistaken.
func (e *tEnv) oddity(p *tpeer, t *tpt) ([]byte, string) {
	if F(300) {
		m := p.request(t, "INVITE")
		u := pickS("urn:service:sos", "http://example.com/x?y", "urn:uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6")
		if F(500) {
			m.To = NA{Display: "Help"}
			return bytes.Replace(m.Bytes(), []byte("To: "+m.To.String()), []byte("To: Help <"+u+">"), 1), "foreign-uri-dropped"
		}
		m.RURI = u
		return m.Bytes(), "foreign-uri-dropped"
	}
	if F(500) {
		m := p.request(t, "REGISTER")
		m.Contact = nil
		m.H = append(m.H, Hdr{"Contact", "*"})
		return m.Bytes(), "contact-star-dropped"
	}
	m := p.request(t, pickS("INVITE", "UPDATE"))
	m.CType, m.Body = "application/sdp", "v=0\r\no=- 1 1 IN IP4 192.0.2.1\r\ns=-\r\nc=IN IP4 192.0.2.1\r\nt=0 0\r\n"+pickS("m=image 4000 udptl t38\r\n", "m=audio 4000 RTP/AVP 77\r\n", "m=audio 4000 RTP/AVP 0 2\r\n")
	return m.Bytes(), "unsupported-sdp-dropped"
}

// hostileBytes makes something nasty out of something decent.
func (e *tEnv) hostileBytes(p *tpeer, t *tpt) []byte {
	var b []byte
	if F(700) {
		b = e.render(p.request(t, ""))
	} else {
		b = e.render(p.response(t))
	}
	return nasty(b)
}

var nasties = []string{
	"\x00", "\xff", "%", "%0", "%zz", "\"", "\\", "<", ">", "<<", ";", ";;", ";=", "=", ",", ",,", ":", "::", "[", "]", "[]", "@", "@@", "?", "&", "\r", "\n", "\r\n", "\r\n\r\n", "\r\n ", " ", "\t",
	"-1", "0", "65536", "99999999999999999999", "4294967296", "-9223372036854775808", "18446744073709551616",
	"\r\nVia: ", "\r\nv:", "\r\nContact: *", "\r\nRoute: <sip:x;lr>", "\r\nContent-Length: ", "\r\nContent-Length: -5", "\r\nContent-Length: 99999999999999999999", "\r\nContent-Type: application/sdp", "\r\nCSeq: 99999999999999999999 INVITE", "\r\nMax-Forwards: -1", "\r\nTo: ", "\r\nFrom: <sip:>", "\r\nExpires: 99999999999999999999", "\r\nRecord-Route: <sip:a;lr>,<sip:b>", "\r\nX: y",
	"SIP/2.0 ", "SIP/2.0 000 x", "SIP/2.0 -1 x", "SIP/2.0 999999 x", "INVITE ", "v=0\r\n", "m=audio ", "c=IN IP4 ", "o=", "a=rtpmap:", "(((", ")))", "tag=", ";branch=", ";received=", ";rport=", ";rport=-1", ";lr", "sip:", "\xed\xa0\x80", "\xc3",
}

// nasty damages bytes in the ways attackers and broken senders do.
func nasty(b []byte) []byte {
	b = append([]byte(nil), b...)
	n := 1 + W(4)
	if F(100) {
		n = 20
	}
	for ; n > 0; n-- {
		at := 0
		if len(b) > 0 {
			at = W(len(b))
		}
		// Damage close to something meaningful more often.
		if F(400) {
			if i := bytes.IndexAny(b[at:], ":;=<>@,\r"); i >= 0 {
				at += i
			}
		}
		end := at + W(20)
		if end > len(b) {
			end = len(b)
		}
		ins := []byte(nil)
		switch W(9) {
		case 0:
			if len(b) > 0 {
				b[at] ^= byte(1 << uint(W(8)))
			}
			continue
		case 1:
			ins, end = []byte(nasties[W(len(nasties))]), at
		case 2:
			ins = []byte(nasties[W(len(nasties))])
		case 3: // loses something
		case 4: // truncated
			end = len(b)
		case 5: // repeats something
			k := pick(2, 3, 10, 100, 1000)
			if len(b)*k > 100000 {
				k = 2
			}
			ins = bytes.Repeat(b[at:end], k)
		case 6: // long
			c := nasties[W(len(nasties))]
			ins, end = bytes.Repeat([]byte(c), pick(10, 300, 5000, 60000)/len(c)), at
		case 7: // moved
			x := append([]byte(nil), b[at:end]...)
			b = append(b[:at:at], b[end:]...)
			at = 0
			if len(b) > 0 {
				at = W(len(b))
			}
			ins, end = x, at
		case 8: // a line again or gone
			i := bytes.LastIndexByte(b[:at], '\n') + 1
			j := bytes.IndexByte(b[at:], '\n')
			if j < 0 {
				continue
			}
			j += at + 1
			ins, at, end = append(append([]byte(nil), b[i:j]...), b[i:j]...), i, j
			if F(500) {
				ins = nil
			}
		}
		b = append(append(append([]byte(nil), b[:at]...), ins...), b[end:]...)
	}
	if len(b) > 65000 {
		b = b[:65000]
	}
	return b
}

// loose is how a proxy says that it routes loosely. Some give it a value.
func loose() Prm {
	if F(200) {
		return Prm{pickS("lr", "LR", "lr", "Lr"), pickS("on", "true", "1", "yes"), true}
	}
	if F(50) {
		return Prm{Name: "LR"}
	}
	return Prm{Name: "lr"}
}

// escaped octets, spelled either way.
func escaped() string {
	s := ""
	for n := 1 + W(3); n > 0; n-- {
		s += "%"
		b := 1 + W(255)
		for _, d := range []int{b >> 4, b & 15} {
			s += pickS("0123456789abcdef", "0123456789ABCDEF")[d : d+1]
		}
	}
	return s
}

const (
	alnum      = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	unreserved = alnum + "-_.!~*'()"
	wordChars  = tokenChars + `()<>:\"/[]?{}`
)

// chars are a few of some, escaped ones in between if those are possible.
func chars(of string, esc bool) string {
	var b strings.Builder
	for n := 1 + W(6); n > 0; n-- {
		if esc && F(100) {
			b.WriteString(escaped())
		}
		b.WriteByte(of[W(len(of))])
	}
	return b.String()
}

// text can be quoted.
func text() string {
	var b strings.Builder
	for n := 1 + W(8); n > 0; n-- {
		switch W(8) {
		case 0:
			b.WriteRune(rune(0x80 + W(0x780)))
		case 1:
			b.WriteRune(rune(0xe000 + W(0x2000)))
		case 2:
			b.WriteRune(rune(0x10000 + W(0x100000)))
		case 3:
			b.WriteString(alnum[W(len(alnum)):][:1] + " ")
		default:
			b.WriteByte(byte('!' + W('~'-'!'+1)))
		}
	}
	return strings.TrimSpace(b.String())
}

// quotable is text that can only be said in quotes.
func quotable() string {
	s := text()
	if F(300) {
		c := W(32)
		if c == '\r' || c == '\n' {
			c = 127
		}
		i := W(len(s) + 1)
		for i < len(s) && s[i]&0xc0 == 0x80 {
			i++
		}
		s = s[:i] + string(rune(c)) + s[i:]
	}
	return s
}

func oddUser() string {
	if F(400) {
		u := chars(unreserved+"&=+$,;?/", true)
		if F(200) {
			u += ":" + chars(unreserved+"&=+$,", true)
		}
		return u
	}
	return pickS(escaped(), "1234;phone-context=example.com", "a?b", "a/b&c=d", "%c3%a9t%C3%a9", "a+b$c,d", "x%40y", "%2525", "a:p%3ap", "(*)~'_", "a:")
}

func oddParam() Prm {
	of := unreserved + "[]/:&+$"
	q := Prm{Name: "q-" + chars(of, true)}
	if F(800) {
		q.Has, q.Value = true, chars(of, true)
	}
	return q
}

func oddHeaders() string {
	if F(400) {
		of := unreserved + "[]/?:+$"
		h := ""
		for i := 0; i == 0 || F(300); i++ {
			if i > 0 {
				h += "&"
			}
			h += "h" + fmt.Sprint(i) + "-" + chars(of, true)
			if !F(100) {
				h += "="
				if !F(100) {
					h += chars(of, true)
				}
			}
		}
		return h
	}
	return pickS("x="+escaped(), "subject=x%20y&priority=urgent", "subject=", "subject=&priority=urgent", "a=1&b=&c=%3d", "body=x%26y%3dz%3f", "%26a=%23", "Replaces=x%40y%3bto-tag%3d1", "a=[/?:+$]")
}

// surplus is what some put after the body. It counts for nothing.
func surplus() string {
	rt.Stat("op.surplus")
	return pickS("\r\n", "\x00", "\r\n\r\n", "OPTIONS sip:a@b SIP/2.0\r\nVia: x\r\n\r\n", "a=ptime:60\r\n", strings.Repeat("x", 1+W(2000)))
}
