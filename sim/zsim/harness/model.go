package main

import (
	"fmt"
	"net"
	"net/netip"
	"strconv"
	"strings"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/zsim/rt"
	"github.com/jart/gosip/zsim/snet"
)

// The reference model: what a call may do, as a function of what reached it.
// Where the order in which simultaneous things are handled is up to the
// scheduler, the model follows every order, so it is in several states at once.

type remote struct {
	tag     string
	contact URI
	rr      []NA
}

type mst struct {
	started, ended  bool
	st              int
	hangup, cancel  bool
	cancelled, bye  bool
	resends         int
	reqDl           int64
	respOn          bool
	respCSeq, respN int
	respDl          int64
	resp            *SM
	respSrc         netip.AddrPort
	rseq            int
	rem             *remote
	routes          []string
	addr            string
	dst             netip.AddrPort
	sock            uint16
	req, inv, can   *SM
	mf              int
	ruri            string
	route           []NA
	redirects       int
	identity        *SM // first INVITE ever sent
}

func (m *mst) key() string {
	return fmt.Sprint(m.started, m.ended, m.st, m.hangup, m.cancel, m.cancelled, m.bye, m.resends, m.reqDl, m.respOn, m.respCSeq, m.respN, m.respDl, m.rseq, m.routes, m.addr, m.sock, m.mf, m.ruri, len(m.route), m.redirects) +
		fmt.Sprintf("%p%p%p%p%p", m.req, m.inv, m.can, m.resp, m.rem)
}

// out is something the call has to do next.
type out struct {
	k    byte
	tags string
	what string
	ok   func(ms *mst, o *Obs) string
}

func (c *Call) expectState(n int, tags string) out {
	return out{'n', tags, "notify state " + stName(n), func(ms *mst, o *Obs) string {
		if o.State != n {
			return "notified state " + stName(o.State)
		}
		return ""
	}}
}

func expectPeer(host string, port int) out {
	want := (&net.UDPAddr{IP: net.ParseIP(host), Port: port}).String()
	return out{'p', "C11", "notify peer " + want, func(ms *mst, o *Obs) string {
		if o.Peer != want {
			return "notified peer " + o.Peer
		}
		return ""
	}}
}

func expectErr(tags, what string, r *SM) out {
	return out{'e', tags, "notify error (" + what + ")", func(ms *mst, o *Obs) string {
		if o.Err == nil {
			return "notified a nil error"
		}
		if r != nil && o.Carry == nil {
			return fmt.Sprintf("error %q does not carry the %d response", o.Err, r.Status)
		}
		if r != nil {
			if d := diff(o.Carry, canonSM(r)); d != "" {
				return "error carries a response altered:" + d
			}
		}
		return ""
	}}
}

func expectClosed() out {
	return out{'c', "C02", "close its channels", func(*mst, *Obs) string { return "" }}
}

func (c *Call) endErr(ms *mst, tags, what string, r *SM) []out {
	ms.ended = true
	return []out{expectErr(tags+" C02", what, r), expectClosed()}
}

func (c *Call) endHangup(ms *mst, tags string) []out {
	ms.ended = true
	return []out{c.expectState(dialog.Hangup, tags+" C02"), expectClosed()}
}

// hostRoute resolves where a request goes, like RFC 3263 cut down to UDP.
func (c *Call) resolve(host string, port int, wantSRV bool) ([]string, bool) {
	if net.ParseIP(host) != nil {
		if port == 0 {
			port = 5060
		}
		return []string{net.JoinHostPort(host, strconv.Itoa(port))}, true
	}
	if port == 0 {
		if wantSRV {
			key := "_sip._udp." + strings.ToLower(host)
			if l := c.e.w.SRVs[key]; len(l) > 0 && c.e.w.DNSErr[key] == nil {
				var r []string
				for _, s := range l {
					r = append(r, net.JoinHostPort(s.Target, strconv.Itoa(int(s.Port))))
				}
				return r, true
			}
		}
		port = 5060
	}
	a, ok := c.addrOf(host)
	if !ok {
		return nil, false
	}
	return []string{net.JoinHostPort(a, strconv.Itoa(port))}, true
}

func (c *Call) addrOf(host string) (string, bool) {
	if net.ParseIP(host) != nil {
		return host, true
	}
	key := strings.ToLower(strings.TrimSuffix(host, "."))
	l := c.e.w.DNS[key]
	if c.e.w.DNSErr[key] != nil || len(l) == 0 {
		return "", false
	}
	for _, a := range l {
		if a.Is4() {
			return a.String(), true
		}
	}
	return l[0].String(), true
}

// dialable tells where a datagram to addr ends up, if a socket can be had.
func (c *Call) dialable(ms *mst, addr string) (netip.AddrPort, bool) {
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		return netip.AddrPort{}, false
	}
	a, ok := c.addrOf(h)
	if !ok {
		return netip.AddrPort{}, false
	}
	port, _ := strconv.Atoi(p)
	dst := netip.AddrPortFrom(netip.MustParseAddr(a).Unmap(), uint16(port))
	if c.e.dialFail[dst.String()] {
		return dst, false
	}
	okFam := false
	for _, ip := range c.host.IPs {
		if ip.Is4() == dst.Addr().Is4() {
			okFam = true
		}
	}
	if !okFam {
		return dst, false
	}
	if c.loose && c.e.bindFail {
		return dst, false
	}
	return dst, true
}

func (c *Call) sendRequest(ms *mst, tags string) []out {
	var u URI
	ruri, route := ms.ruri, ms.route
	if ms.bye {
		ruri = ms.rem.contact.String()
		route = nil
		for i := len(ms.rem.rr) - 1; i >= 0; i-- {
			route = append(route, ms.rem.rr[i])
		}
	}
	cu, _ := parseURI(ruri)
	if len(route) > 0 {
		u = route[0].U
		if !u.Lr() {
			rest := append([]NA(nil), route[1:]...)
			route = append(rest, NA{U: cu})
			ruri = u.String()
		}
	} else {
		u = cu
	}
	ms.ruri, ms.route = ruri, route
	l, ok := c.resolve(u.Host, u.Port, ms.st < dialog.Answered)
	if !ok {
		return c.endErr(ms, tags+" C07 C14", "name does not resolve", nil)
	}
	ms.routes = l
	return c.popRoute(ms, tags+" C14 C07")
}

func (c *Call) popRoute(ms *mst, tags string) []out {
	for {
		if ms.hangup && !ms.bye {
			return c.endHangup(ms, "C03")
		}
		if len(ms.routes) == 0 {
			return c.endErr(ms, tags+" C07", "no address left", nil)
		}
		a := ms.routes[0]
		ms.routes = ms.routes[1:]
		dst, ok := c.dialable(ms, a)
		if !ok {
			continue
		}
		ms.addr, ms.dst = a, dst
		break
	}
	if ms.st < dialog.Answered {
		ms.rseq = 0
		ms.rem = nil
	}
	ms.resends = 0
	if (ms.mf == 1 || ms.mf == 0 && c.spec.MF == 1) && !ms.bye {
		return c.endErr(ms, "C14", "Max-Forwards exhausted", nil)
	}
	if ms.bye {
		return []out{c.expectBye(tags)}
	}
	return []out{c.expectInvite(tags)}
}

func sm(o *Obs) (*SM, string) {
	if o.Perr != nil {
		return nil, fmt.Sprintf("sent a malformed message (%v): %q", o.Perr, o.M.Raw)
	}
	return o.M, ""
}

func uriEq(a, b string) bool { return canonURI(a) == canonURI(b) }

func naList(l []NA) string {
	var r []string
	for i := range l {
		r = append(r, l[i].canon())
	}
	return strings.Join(r, ", ")
}

// localOK checks that Via and Contact name addresses the sender receives at.
func (c *Call) localOK(ms *mst, o *Obs) string {
	m := o.M
	v := m.Via()
	vp := v.Port
	if vp == 0 {
		vp = 5060
	}
	lip := o.Src.Addr()
	if vp != int(o.Src.Port()) {
		return fmt.Sprintf("Via %s does not name the port %d it was sent from", v.String(), o.Src.Port())
	}
	if c.spec.ViaHost != "" {
		if v.Host != c.spec.ViaHost {
			return "Via host supplied by application was changed to " + v.Host
		}
	} else if a, err := netip.ParseAddr(v.Host); err != nil || a.Unmap() != lip {
		return fmt.Sprintf("Via %s does not name the local address %s", v.String(), lip)
	}
	if len(m.Contact) != 1 {
		return "needs one Contact"
	}
	u := m.Contact[0].U
	cp := u.Port
	if cp == 0 {
		cp = 5060
	}
	if c.spec.ContactHost == "" || c.spec.ContactHost == lip.String() {
		a, err := netip.ParseAddr(u.Host)
		if err != nil || a.Unmap() != lip {
			return fmt.Sprintf("Contact %s does not name the local address %s", u.String(), lip)
		}
	} else if u.Host != c.spec.ContactHost {
		return "Contact host supplied by application was changed to " + u.Host
	}
	for _, p := range o.CPorts {
		if int(p.Port()) == cp && (p.Addr().IsUnspecified() || p.Addr() == lip) {
			if c.loose && !p.Addr().IsUnspecified() {
				continue // must be the socket anybody can send to
			}
			return ""
		}
	}
	return fmt.Sprintf("Contact %s names a port nobody listens at", u.String())
}

func (c *Call) expectInvite(tags string) out {
	return out{'s', tags, "send a new INVITE attempt to wherever the route says", func(ms *mst, o *Obs) string {
		m, bad := sm(o)
		if bad != "" {
			return bad
		}
		if m.Resp || m.Method != "INVITE" {
			return "sent " + snet.Head([]byte(m.Raw))
		}
		if !o.Fresh {
			return "new attempt reuses branch " + m.Via().Branch()
		}
		if o.Dst != ms.dst {
			return fmt.Sprintf("sent INVITE to %s, not %s", o.Dst, ms.dst)
		}
		if bad := c.inviteOK(ms, o); bad != "" {
			return bad
		}
		ms.req, ms.inv = m, m
		if ms.identity == nil {
			ms.identity = m
		}
		ms.mf = m.MF
		ms.reqDl = o.T + c.e.interval
		ms.sock = o.Src.Port()
		return ""
	}}
}

func (c *Call) inviteOK(ms *mst, o *Obs) string {
	m := o.M
	sp := c.spec
	if !uriEq(m.RURI, ms.ruri) {
		return fmt.Sprintf("Request-URI is %s, not %s", m.RURI, ms.ruri)
	}
	if naList(m.Route) != naList(ms.route) {
		return fmt.Sprintf("Route is %s, not %s", naList(m.Route), naList(ms.route))
	}
	if !strings.HasPrefix(m.Via().Branch(), "z9hG4bK") {
		return "branch lacks the magic cookie: " + m.Via().Branch()
	}
	if len(m.Vias) != 1 {
		return fmt.Sprintf("%d Vias", len(m.Vias))
	}
	if m.From.Tag() == "" {
		return "From has no tag"
	}
	if m.To.Tag() != "" {
		return "To has a tag"
	}
	if sp.From != nil && (m.From.U.canon() != sp.From.U.canon() || m.From.Display != sp.From.Display) {
		return "From was changed to " + m.From.String()
	}
	if sp.From != nil {
		for _, p := range sp.From.P {
			if v, _ := getP(m.From.P, p.Name); v != p.Value {
				return "From parameter " + p.Name + " supplied by application was lost"
			}
		}
	}
	if sp.From != nil && sp.From.Tag() != "" && m.From.Tag() != sp.From.Tag() {
		return "From tag supplied by application was changed"
	}
	if sp.To != nil && m.To.canon() != sp.To.canon() {
		return "To was changed to " + m.To.String()
	}
	if sp.CallID != "" && m.CallID != sp.CallID {
		return "Call-ID supplied by application was changed"
	}
	if sp.CSeq != 0 && m.CSeq != sp.CSeq {
		return "CSeq supplied by application was changed"
	}
	if sp.CUser != "" && len(m.Contact) == 1 && m.Contact[0].U.User != sp.CUser {
		return "Contact user supplied by application was changed"
	}
	ua, ok := m.Hget("User-Agent")
	if !ok || ua == "" {
		return "no User-Agent"
	}
	if sp.UA != "" && ua != sp.UA {
		return "User-Agent supplied by application was changed"
	}
	for _, h := range sp.X {
		if v, _ := m.Hget(h.Name); v != h.Value {
			return fmt.Sprintf("header %s supplied by application became %q", h.Name, v)
		}
	}
	if m.MF < 1 {
		return "Max-Forwards is absent or exhausted"
	}
	if ms.mf == 0 && sp.MF != 0 && m.MF != sp.MF-1 {
		return fmt.Sprintf("Max-Forwards %d was not reduced by one but to %d", sp.MF, m.MF)
	}
	if ms.mf == 0 && sp.MF == 0 && m.MF > 70 {
		return "Max-Forwards above default"
	}
	if ms.mf != 0 && m.MF > ms.mf {
		return "Max-Forwards went up"
	}
	if id := ms.identity; id != nil {
		switch {
		case id.CallID != m.CallID:
			return "Call-ID changed between attempts"
		case id.From.canon() != m.From.canon():
			return "From changed between attempts"
		case id.To.canon() != m.To.canon():
			return "To changed between attempts"
		case c.sansLocal(id.Body) != c.sansLocal(m.Body):
			return "session description changed between attempts"
		}
	}
	if bad := c.bodyOK(ms, o); bad != "" {
		return bad
	}
	return c.localOK(ms, o)
}

// sansLocal takes the local address out of a session description.
func (c *Call) sansLocal(b string) string {
	if !c.spec.SDP || c.spec.SDPAddr != "" {
		return b
	}
	l := strings.Split(b, "\r\n")
	for i := range l {
		if strings.HasPrefix(l[i], "c=") || strings.HasPrefix(l[i], "o=") {
			if j := strings.Index(l[i], " IN IP"); j >= 0 {
				l[i] = l[i][:j]
			}
			if strings.HasPrefix(l[i], "c=") {
				l[i] = "c="
			}
		}
	}
	return strings.Join(l, "\r\n")
}

func (c *Call) bodyOK(ms *mst, o *Obs) string {
	m := o.M
	sp := c.spec
	if !sp.SDP {
		if m.Body != sp.Body {
			return fmt.Sprintf("payload is %q", m.Body)
		}
		return ""
	}
	h, p, ok := sdpPeer(m.CType, m.Body)
	if !ok || p != sp.SDPPort {
		return fmt.Sprintf("session description lost its audio port: %q", m.Body)
	}
	want := sp.SDPAddr
	if want == "" {
		want = ms.localIP(o)
	}
	if h != want {
		return fmt.Sprintf("session description names %s, not %s", h, want)
	}
	for _, l := range strings.Split(m.Body, "\r\n") {
		if f := strings.Fields(l); strings.HasPrefix(l, "o=") && f[len(f)-1] != want {
			return fmt.Sprintf("origin of session description is %s, not %s", f[len(f)-1], want)
		} else if strings.HasPrefix(l, "o=") && (len(f) != 6 || !isNumber(f[1]) || !isNumber(f[2])) {
			return fmt.Sprintf("origin of session description is %q", l)
		}
	}
	if is, want := mediaOf(sdpText(m.Body)), mediaOf(sdpStruct(sp.desc(want))); is != want {
		return fmt.Sprintf("session description is %q, not %q", is, want)
	}
	return ""
}

// mediaOf is what a summary says of the streams.
func mediaOf(s string) string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "o=") && !strings.HasPrefix(l, "s=") && !strings.HasPrefix(l, "t=") {
			r = append(r, l)
		}
	}
	return strings.Join(r, "\n")
}

func isNumber(s string) bool { return s != "" && strings.Trim(s, "0123456789") == "" }

func (ms *mst) localIP(o *Obs) string { return o.Src.Addr().String() }

// stripMF removes what may differ between retransmissions.
func stripMF(raw string) string {
	var r []string
	for _, l := range strings.Split(raw, "\r\n") {
		if len(l) > 13 && strings.EqualFold(l[:13], "max-forwards:") {
			continue
		}
		for {
			i := strings.Index(l, ";usi=")
			if i < 0 {
				break
			}
			j := i + 5
			for j < len(l) && l[j] >= '0' && l[j] <= '9' {
				j++
			}
			l = l[:i] + l[j:]
		}
		r = append(r, l)
	}
	return strings.Join(r, "\r\n")
}

func expectSame(what, tags string, ref *SM, dl int64, after func(ms *mst, o *Obs)) out {
	return out{'s', tags, what, func(ms *mst, o *Obs) string {
		m, bad := sm(o)
		if bad != "" {
			return bad
		}
		if stripMF(m.Raw) != stripMF(ref.Raw) {
			return fmt.Sprintf("sent something else than before: %s", diffText(ref.Raw, m.Raw))
		}
		if !m.Resp && (m.MF < 1 || m.MF > ref.MF) {
			return fmt.Sprintf("retransmission with Max-Forwards %d", m.MF)
		}
		if o.T < dl {
			return "sent too early"
		}
		if after != nil {
			after(ms, o)
		}
		return ""
	}}
}

func diffText(a, b string) string {
	x, y := strings.Split(a, "\r\n"), strings.Split(b, "\r\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "", ""
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("%q instead of %q", q, p)
		}
	}
	return "same"
}

func (c *Call) expectAck(ms *mst, r *SM) out {
	inv, dst := ms.inv, ms.dst
	return out{'s', "C05", fmt.Sprintf("acknowledge the %d", r.Status), func(ms *mst, o *Obs) string {
		m, bad := sm(o)
		if bad != "" {
			return bad
		}
		if m.Resp || m.Method != "ACK" {
			return "sent " + snet.Head([]byte(m.Raw))
		}
		if m.CSeq != r.CSeq || m.CallID != r.CallID || m.From.Tag() != inv.From.Tag() {
			return "ACK with other CSeq, Call-ID or From tag"
		}
		if m.To.Tag() != r.To.Tag() {
			return fmt.Sprintf("ACK with To tag %q, not %q", m.To.Tag(), r.To.Tag())
		}
		if u := m.From.U.canon(); u != inv.From.U.canon() && u != r.From.U.canon() {
			return "ACK with other From " + m.From.String()
		}
		if u := m.To.U.canon(); u != inv.To.U.canon() && u != r.To.U.canon() {
			return "ACK with other To " + m.To.String()
		}
		for _, n := range []string{"Authorization", "Proxy-Authorization"} {
			a, aok := m.Hget(n)
			b, bok := inv.Hget(n)
			if a != b || aok != bok {
				return fmt.Sprintf("ACK with %s %q, not %q like the INVITE", n, a, b)
			}
		}
		if m.MF < 1 {
			return "ACK without Max-Forwards"
		}
		if o.Dst != dst {
			return fmt.Sprintf("ACK sent to %s, not %s", o.Dst, dst)
		}
		if len(m.Vias) != 1 {
			return "ACK with several Vias"
		}
		var route []NA
		if r.Status < 300 {
			for i := len(r.RR) - 1; i >= 0; i-- {
				route = append(route, r.RR[i])
			}
			if m.RURI == "" || !uriEq(m.RURI, r.Contact[0].U.String()) {
				return fmt.Sprintf("ACK addressed to %s, not the Contact %s", m.RURI, r.Contact[0].U.String())
			}
		} else {
			route = inv.Route
			if !uriEq(m.RURI, inv.RURI) {
				return fmt.Sprintf("ACK addressed to %s, not %s like the INVITE", m.RURI, inv.RURI)
			}
			if m.Via().Branch() != inv.Via().Branch() {
				return "ACK does not repeat the INVITE's branch"
			}
		}
		if naList(m.Route) != naList(route) {
			return fmt.Sprintf("ACK with Route %s, not %s", naList(m.Route), naList(route))
		}
		return ""
	}}
}

func (c *Call) expectCancel() out {
	return out{'s', "C03", "send CANCEL", func(ms *mst, o *Obs) string {
		m, bad := sm(o)
		if bad != "" {
			return bad
		}
		i := ms.inv
		if m.Resp || m.Method != "CANCEL" {
			return "sent " + snet.Head([]byte(m.Raw))
		}
		switch {
		case !uriEq(m.RURI, i.RURI):
			return "CANCEL with other Request-URI"
		case m.Via().Branch() != i.Via().Branch() || len(m.Vias) != 1 || m.Via().Host != i.Via().Host || m.Via().Port != i.Via().Port:
			return "CANCEL with other Via"
		case m.CSeq != i.CSeq:
			return "CANCEL with other CSeq"
		case m.CallID != i.CallID || m.From.canon() != i.From.canon() || m.To.canon() != i.To.canon():
			return "CANCEL with other identifiers"
		case naList(m.Route) != naList(i.Route):
			return "CANCEL with other Route"
		case o.Dst != ms.dst:
			return fmt.Sprintf("CANCEL sent to %s, not %s", o.Dst, ms.dst)
		case m.MF < 1:
			return "CANCEL without Max-Forwards"
		}
		ms.can = m
		ms.reqDl = o.T + c.e.interval
		return ""
	}}
}

func (c *Call) expectBye(tags string) out {
	return out{'s', "C03 " + tags, "send BYE", func(ms *mst, o *Obs) string {
		m, bad := sm(o)
		if bad != "" {
			return bad
		}
		i := ms.inv
		if m.Resp || m.Method != "BYE" {
			return "sent " + snet.Head([]byte(m.Raw))
		}
		switch {
		case !uriEq(m.RURI, ms.ruri):
			return fmt.Sprintf("BYE addressed to %s, not %s", m.RURI, ms.ruri)
		case naList(m.Route) != naList(ms.route):
			return fmt.Sprintf("BYE with Route %s, not %s", naList(m.Route), naList(ms.route))
		case m.CSeq != i.CSeq+1:
			return fmt.Sprintf("BYE with CSeq %d after %d", m.CSeq, i.CSeq)
		case m.CallID != i.CallID || m.From.Tag() != i.From.Tag():
			return "BYE with other identifiers"
		case m.From.U.canon() != i.From.U.canon():
			return "BYE with other From " + m.From.String()
		case m.To.Tag() != ms.rem.tag:
			return fmt.Sprintf("BYE with To tag %q, not %q", m.To.Tag(), ms.rem.tag)
		case !o.Fresh || !strings.HasPrefix(m.Via().Branch(), "z9hG4bK") || len(m.Vias) != 1:
			return "BYE without a fresh branch"
		case o.Dst != ms.dst:
			return fmt.Sprintf("BYE sent to %s, not %s", o.Dst, ms.dst)
		case m.MF < 1 || m.MF > 70:
			return "BYE without Max-Forwards"
		}
		v := m.Via()
		if a, err := netip.ParseAddr(v.Host); err != nil || a.Unmap() != o.Src.Addr() || v.Port != int(o.Src.Port()) {
			return "BYE with a Via that isn't its source: " + v.String()
		}
		ms.req = m
		ms.reqDl = o.T + c.e.interval
		ms.sock = o.Src.Port()
		return ""
	}}
}

func (c *Call) expectResp(ms *mst, r *SM, src netip.AddrPort, tags string, status int, after func(ms *mst, o *Obs)) out {
	dst := ms.dst
	return out{'s', tags, fmt.Sprintf("respond %d to %s %d", status, r.Method, r.CSeq), func(ms *mst, o *Obs) string {
		m, bad := sm(o)
		if bad != "" {
			return bad
		}
		if !m.Resp {
			return "sent " + snet.Head([]byte(m.Raw))
		}
		if m.Status != status {
			return fmt.Sprintf("responded %d", m.Status)
		}
		if m.CSeq != r.CSeq || m.CMethod != r.CMethod || m.CallID != r.CallID {
			return "response to something else"
		}
		if l, _ := m.Hget("Allow"); status == 405 {
			for _, n := range []string{"INVITE", "ACK", "CANCEL", "BYE", "OPTIONS"} {
				if !strings.Contains(l, n) {
					return fmt.Sprintf("405 that does not say that %s is allowed", n)
				}
			}
		}
		if m.From.canon() != r.From.canon() {
			return fmt.Sprintf("response with From %s, not %s", m.From.String(), r.From.String())
		}
		if m.To.U.canon() != r.To.U.canon() || r.To.Tag() != "" && m.To.Tag() != r.To.Tag() {
			return fmt.Sprintf("response with To %s, not %s", m.To.String(), r.To.String())
		}
		if len(m.Vias) != len(r.Vias) {
			return fmt.Sprintf("response with %d Vias instead of %d", len(m.Vias), len(r.Vias))
		}
		for i := range m.Vias {
			if sansRport(m.Vias[i]) != sansRport(r.Vias[i]) {
				return fmt.Sprintf("response with Via %s, not %s", m.Vias[i].String(), r.Vias[i].String())
			}
		}
		if o.Dst != dst && o.Dst != src {
			return fmt.Sprintf("response sent to %s", o.Dst)
		}
		if after != nil {
			after(ms, o)
		}
		return ""
	}}
}

func sansRport(v Via) string {
	var ps []Prm
	for _, p := range v.P {
		if !strings.EqualFold(p.Name, "rport") && !strings.EqualFold(p.Name, "received") && !strings.EqualFold(p.Name, "usi") {
			ps = append(ps, p)
		}
	}
	if v.Port == 5060 {
		v.Port = 0
	}
	v.P = ps
	return strings.ToLower(v.Host) + " " + (&v).String()
}

func rspMatch(req, r *SM) bool {
	if req == nil || r.CSeq != req.CSeq || r.CMethod != req.Method {
		return false
	}
	a, b := r.Vias[len(r.Vias)-1], req.Vias[0]
	ap, bp := a.Port, b.Port
	if ap == 0 {
		ap = 5060
	}
	if bp == 0 {
		bp = 5060
	}
	return a.Host == b.Host && ap == bp && a.Branch() == b.Branch()
}

func (c *Call) onResponse(ms *mst, r *SM, now int64) []out {
	if r.CallID != ms.req.CallID {
		return nil
	}
	if ms.cancel && rspMatch(ms.can, r) {
		ms.cancelled = true
		return nil
	}
	if !rspMatch(ms.req, r) {
		return nil
	}
	var outs []out
	isInv := !ms.bye
	if r.Status >= 200 && isInv {
		if r.Status < 300 && len(r.Contact) == 0 {
			return c.endErr(ms, "C02", "2xx without Contact", nil)
		}
		outs = append(outs, c.expectAck(ms, r))
	}
	if ms.st == dialog.Answered && isInv {
		return outs
	}
	if r.Status < 200 && (ms.bye || ms.cancel) {
		return outs
	}
	if r.Status >= 300 && ms.hangup && isInv {
		return append(outs, c.endHangup(ms, "C03")...)
	}
	if r.Status >= 200 && r.Status != 503 {
		ms.routes = nil
	}
	ms.reqDl = -1
	if r.Status <= 200 {
		if h, p, ok := sdpPeer(r.CType, r.Body); ok {
			if h, ok = c.addrOf(h); ok {
				outs = append(outs, expectPeer(h, p))
			}
		}
	}
	switch {
	case r.Status == 100:
		if ms.st < dialog.Ringing {
			ms.st = dialog.Proceeding
			outs = append(outs, c.expectState(dialog.Proceeding, "C04"))
		}
	case r.Status == 180 || r.Status == 183:
		ms.st = dialog.Ringing
		outs = append(outs, c.expectState(dialog.Ringing, "C04"))
	case r.Status == 200 && isInv:
		ms.rem = &remote{tag: r.To.Tag(), contact: r.Contact[0].U, rr: r.RR}
		ms.cancel, ms.cancelled = false, false
		ms.st = dialog.Answered
		outs = append(outs, c.expectState(dialog.Answered, "C04"))
	case r.Status == 200:
		return append(outs, c.endHangup(ms, "C03")...)
	case r.Status == 503 && isInv:
		return append(outs, c.popRoute(ms, "C07")...)
	case (r.Status == 301 || r.Status == 302) && isInv && len(r.Contact) > 0:
		ms.ruri = r.Contact[0].U.String()
		ms.route = nil
		ms.redirects++
		return append(outs, c.sendRequest(ms, "C08")...)
	case r.Status > 200:
		t := "C02"
		if r.Status == 301 || r.Status == 302 {
			t = "C08"
		}
		return append(outs, c.endErr(ms, t, "final response", r)...)
	}
	if ms.hangup && isInv {
		outs = append(outs, c.doHangup(ms, now)...)
	}
	return outs
}

func (c *Call) onRequest(ms *mst, r *SM, src netip.AddrPort, now int64) []out {
	if r.CallID != ms.req.CallID {
		if r.Method == "ACK" {
			return nil
		}
		return []out{c.expectResp(ms, r, src, "C09", 481, nil)}
	}
	if r.Method == "ACK" {
		if ms.respOn && ms.respCSeq == r.CSeq {
			ms.respOn = false
			ms.respDl = -1
			ms.resp = nil
		}
		return nil
	}
	if r.MF <= 0 {
		return append([]out{c.expectResp(ms, r, src, "C09", 483, nil)}, c.endErr(ms, "C09", "loop", nil)...)
	}
	if ms.rseq != 0 && r.CSeq < ms.rseq {
		return []out{c.expectResp(ms, r, src, "C09", 500, nil)}
	}
	ms.rseq = r.CSeq
	switch r.Method {
	case "BYE":
		return append([]out{c.expectResp(ms, r, src, "C09", 200, nil)}, c.endHangup(ms, "C09")...)
	case "OPTIONS":
		return []out{c.expectResp(ms, r, src, "C09", 200, nil)}
	case "INVITE":
		var outs []out
		if ms.rem != nil && len(r.Contact) > 0 {
			rem := *ms.rem
			rem.contact = r.Contact[0].U
			ms.rem = &rem
		}
		if h, p, ok := sdpPeer(r.CType, r.Body); ok {
			if h, ok = c.addrOf(h); ok {
				outs = append(outs, expectPeer(h, p))
			}
		}
		return append(outs, c.expectResp(ms, r, src, "C09 C06", 200, func(ms *mst, o *Obs) {
			ms.respOn = true
			ms.respCSeq = r.CSeq
			ms.respN = 0
			ms.respDl = o.T + c.e.interval
			ms.resp = o.M
		}))
	}
	return []out{c.expectResp(ms, r, src, "C09", 405, nil)}
}

func (c *Call) doHangup(ms *mst, now int64) []out {
	ms.hangup = true
	if ms.st == dialog.Answered {
		if ms.bye {
			return nil
		}
		ms.bye = true
		return c.sendRequest(ms, "C03")
	}
	if ms.reqDl >= 0 {
		return nil
	}
	ms.cancel = true
	ms.resends = 0
	return []out{c.expectCancel()}
}

func (c *Call) onReqTimer(ms *mst, now int64) []out {
	dl := ms.reqDl
	if ms.resends >= c.e.max {
		t := "C06 C07"
		if ms.bye || ms.hangup {
			t = "C06 C03"
		}
		return c.popRoute(ms, t)
	}
	ms.resends++
	if ms.cancelled {
		ms.reqDl = now + c.e.interval
		return nil
	}
	ref, what := ms.req, "resend "
	if ms.cancel {
		ref = ms.can
	}
	inv := !ms.cancel && !ms.bye
	if inv && ms.mf == 1 {
		return c.endErr(ms, "C14 C06", "Max-Forwards exhausted", nil)
	}
	return []out{expectSame(what+ref.Method, "C06", ref, dl, func(ms *mst, o *Obs) {
		ms.reqDl = o.T + c.e.interval
		if inv {
			ms.mf = o.M.MF
		}
	})}
}

func (c *Call) onRespTimer(ms *mst, now int64) []out {
	dl := ms.respDl
	if ms.respN >= c.e.max {
		// Remote doesn't acknowledge its own re-INVITE.
		return c.popRoute(ms, "C06")
	}
	ms.respN++
	return []out{expectSame("resend response to re-INVITE", "C06", ms.resp, dl, func(ms *mst, o *Obs) {
		ms.respDl = o.T + c.e.interval
	})}
}

// check lets the model explain everything seen since the last call of check.
func (c *Call) check() {
	if c.dl == nil {
		return
	}
	if c.weak {
		// Whatever attackers make of the call is legitimate as long as it lives
		// and dies properly.
		last := byte('-')
		if n := len(c.obs); n > 0 {
			last = c.obs[n-1].K
		}
		c.e.mstates[fmt.Sprint("hostile ", c.loose, c.answer, c.hangN > 0, c.finals, c.closed, c.invs > 1, string(last), len(c.e.w.OpenSocks(c.name)))] = true
		c.obs, c.qs, c.hang = nil, nil, 0
		c.resources()
		return
	}
	now := rt.Now()
	pending := len(c.obs) > 0 || c.hang > 0
	for _, q := range c.qs {
		pending = pending || len(q.it) > 0
	}
	for _, s := range c.states {
		pending = pending || !s.started || s.reqDl >= 0 && s.reqDl <= now || s.respDl >= 0 && s.respDl <= now
	}
	if pending {
		x := &explain{c: c, now: now, seen: map[string]bool{}, best: -1}
		for _, o := range c.obs {
			x.obs[stream(o.K)] = append(x.obs[stream(o.K)], o)
		}
		for _, s := range c.states {
			x.search(s, make([]int, len(c.qs)), 0, cursor{})
		}
		rt.StatN("model.nodes", len(x.seen))
		if rt.Over() {
			return
		}
		if len(x.final) == 0 {
			c.mismatch(x)
			return
		}
		c.states = x.final
		if len(c.states) > 1 {
			rt.Stat("model.ambiguous")
		}
		for _, s := range c.states {
			c.e.state(c, s)
		}
		c.obs = nil
		c.hang = 0
		for _, q := range c.qs {
			for _, s := range q.it {
				for _, t := range s.tags {
					if t == "C10" || t == "C01" {
						c.taint[t] = true
					}
				}
			}
		}
		c.qs = nil
	}
	c.resources()
}

func (c *Call) resources() {
	socks := c.e.w.OpenSocks(c.name)
	max := 1
	if c.loose {
		max = 2
	}
	p := []string{"C02"}
	if c.weak {
		p = append(p, "C01")
	}
	if len(socks) > max {
		rt.Fail(append(p, "C07"), "socket-leak", "call %s has %d sockets open", c.name, len(socks))
		return
	}
	if c.closed && !c.done {
		if l := rt.Alive(c.name); len(l) > 0 {
			rt.Fail(p, "task-leak", "call %s ended but still runs: %s", c.name, strings.Join(l, "; "))
			return
		}
		if len(socks) > 0 {
			rt.Fail(p, "socket-leak-end", "call %s ended but socket %s is still open", c.name, socks[0].Local())
			return
		}
		if c.finals != 1 {
			rt.Fail(p, "finals", "call %s ended with %d final notifications", c.name, c.finals)
			return
		}
		c.done = true
	}
}

// cursor counts how much was explained: sends, states, peers and endings.
// Each of them comes in order; among each other they may come in any, since
// the application learns of things when it gets around to it.
type cursor [4]int

func (u cursor) sum() int { return u[0] + u[1] + u[2] + u[3] }

func stream(k byte) int {
	switch k {
	case 's':
		return 0
	case 'n':
		return 1
	case 'p':
		return 2
	}
	return 3
}

type explain struct {
	c     *Call
	now   int64
	obs   [4][]*Obs
	seen  map[string]bool
	final []*mst
	fkeys map[string]bool
	best  int
	why   []string
	tags  []string
}

func (x *explain) left(u cursor) *Obs {
	for _, o := range x.c.obs {
		i := stream(o.K)
		if u[i] == 0 {
			return o
		}
		u[i]--
	}
	return nil
}

func (x *explain) fail(score int, why string, tags ...string) {
	if score > x.best {
		x.best, x.why, x.tags = score, nil, nil
	}
	if score == x.best {
		if len(x.why) < 6 {
			x.why = append(x.why, why)
		}
		x.tags = append(x.tags, tags...)
	}
}

func obsTags(o *Obs) string {
	switch o.K {
	case 'n':
		if o.State == dialog.Hangup {
			return "C02 C04"
		}
		return "C04"
	case 'p':
		return "C11"
	case 'e', 'c':
		return "C02"
	}
	if o.Perr != nil {
		return "C14 C12"
	}
	if o.M.Resp {
		if o.M.CMethod == "INVITE" {
			return "C09 C06"
		}
		return "C09"
	}
	switch o.M.Method {
	case "INVITE":
		return "C06 C07"
	case "ACK":
		return "C05"
	case "BYE", "CANCEL":
		return "C03 C06"
	}
	return "C06"
}

func (x *explain) search(ms *mst, pos []int, hangs int, cur cursor) {
	if len(x.seen) > 20000 {
		rt.Stop("explosion")
		return
	}
	k := ms.key() + fmt.Sprint(pos, hangs, cur)
	if x.seen[k] {
		return
	}
	x.seen[k] = true
	c := x.c
	if ms.ended {
		if o := x.left(cur); o == nil {
			x.accept(ms)
		} else {
			x.fail(cur.sum()*100+99, "after the end: "+o.String(), "C02", obsTags(o))
		}
		return
	}
	consumed := hangs
	for _, p := range pos {
		consumed += p
	}
	score := cur.sum()*100 + consumed
	if !ms.started {
		n := *ms
		n.started = true
		x.step(&n, pos, hangs, cur, c.sendRequest(&n, "C14 C07"), score, "the call is made", nil)
		return
	}
	open := false
	for i, q := range c.qs {
		if pos[i] >= len(q.it) {
			continue
		}
		stale := !q.wild && q.port != ms.sock
		np := append([]int(nil), pos...)
		np[i]++
		if stale {
			// The socket is gone, and with it whatever it had received.
			x.search(ms, np, hangs, cur)
			continue
		}
		open = true
		s := q.it[pos[i]]
		n := *ms
		x.step(&n, np, hangs, cur, c.onStim(&n, s, x.now), score, s.String(), s.tags)
	}
	if hangs < c.hang {
		open = true
		n := *ms
		x.step(&n, pos, hangs+1, cur, c.doHangup(&n, x.now), score, "hangup", []string{"C03"})
	}
	if ms.reqDl >= 0 && ms.reqDl <= x.now {
		open = true
		for _, t := range c.procTimes(x.now, ms.reqDl) {
			n := *ms
			x.step(&n, pos, hangs, cur, c.onReqTimer(&n, t), score, "request timer", nil)
			if !ms.cancelled {
				break
			}
		}
	}
	if ms.respDl >= 0 && ms.respDl <= x.now {
		open = true
		n := *ms
		x.step(&n, pos, hangs, cur, c.onRespTimer(&n, x.now), score, "response timer", nil)
	}
	if !open {
		if o := x.left(cur); o == nil {
			x.accept(ms)
		} else {
			x.fail(score, "unprompted: "+o.String(), obsTags(o))
		}
	}
}

// procTimes says when the call may have got around to a timer: at once, unless
// it was waiting for a slow application or wasn't running.
func (c *Call) procTimes(now, dl int64) []int64 {
	if c.slow == nil {
		return []int64{now}
	}
	r := []int64{dl}
	for _, o := range c.obs {
		if (o.K == 'n' || o.K == 'p') && o.T > r[len(r)-1] {
			r = append(r, o.T)
		}
	}
	if now > r[len(r)-1] {
		r = append(r, now)
	}
	return r
}

func (c *Call) onStim(ms *mst, s *stim, now int64) []out {
	switch {
	case s.fatal:
		return c.endErr(ms, "C02", "socket error", nil)
	case s.icmp:
		ms.sock = 0
		return c.popRoute(ms, "C07")
	case s.payload == "garbage":
		return nil
	case s.m.Alien != "" && s.m.CallID == ms.req.CallID:
		var outs []out
		if s.m.Resp && !rspMatch(ms.req, s.m) {
			return nil
		}
		if !s.m.Resp && s.m.Method != "ACK" {
			outs = append(outs, c.expectResp(ms, s.m, s.src, "C09", 505, nil))
		}
		return append(outs, c.endErr(ms, "C02", "strange version", nil)...)
	case s.m.Resp:
		return c.onResponse(ms, s.m, now)
	}
	return c.onRequest(ms, s.m, s.src, now)
}

func (x *explain) accept(ms *mst) {
	if x.fkeys == nil {
		x.fkeys = map[string]bool{}
	}
	k := ms.key()
	if !x.fkeys[k] {
		x.fkeys[k] = true
		x.final = append(x.final, ms)
	}
}

// step matches what the call should do against what it did.
func (x *explain) step(ms *mst, pos []int, hangs int, cur cursor, outs []out, score int, what string, tags []string) {
	fatal := false
	for i := 0; i < len(outs); i++ {
		w := outs[i]
		k := stream(w.k)
		var o *Obs
		if cur[k] < len(x.obs[k]) {
			o = x.obs[k][cur[k]]
		}
		if fatal && (o == nil || w.k == 's' || k == 3 || w.ok(ms, o) != "") {
			continue
		}
		if o == nil {
			tt := append([]string{w.tags}, tags...)
			but := ""
			if l := x.left(cur); l != nil {
				tt = append(tt, obsTags(l))
				but = " but " + l.String()
			} else {
				for _, w := range outs[i:] {
					tt = append(tt, w.tags)
				}
			}
			x.fail(cur.sum()*100+90, "upon "+what+" it didn't "+w.what+but, tt...)
			return
		}
		if w.k != o.K {
			x.fail(cur.sum()*100+80, "upon "+what+" it should "+w.what+" but "+o.String(), append([]string{w.tags, obsTags(o)}, tags...)...)
			return
		}
		if why := w.ok(ms, o); why != "" {
			x.fail(cur.sum()*100+95, "upon "+what+" it should "+w.what+" but "+why, append([]string{w.tags}, tags...)...)
			return
		}
		cur[k]++
		if o.K == 's' && o.Fatal {
			// What it meant to say after this it needn't.
			fatal = true
			ms.ended = true
			n := 0
			for cur[3]+n < len(x.obs[3]) && n < 2 {
				if x.obs[3][cur[3]+n].K != "ec"[n] {
					break
				}
				n++
			}
			if n < 2 {
				x.fail(cur.sum()*100+90, "upon "+what+" a write failed and it didn't notify an error and close", append([]string{"C02"}, tags...)...)
				return
			}
			cur[3] += 2
		}
	}
	x.search(ms, pos, hangs, cur)
}

func (c *Call) mismatch(x *explain) {
	tags := append([]string(nil), x.tags...)
	if c.hangN > 0 {
		tags = append(tags, "C03")
	}
	tags = append(tags, c.tainted()...)
	if len(c.e.list) > 1 {
		tags = append(tags, "C21")
	}
	var b strings.Builder
	fmt.Fprintf(&b, "call %s did something its protocol state doesn't allow\n", c.name)
	for _, w := range x.why {
		fmt.Fprintf(&b, "  expected: %s\n", w)
	}
	for _, q := range c.qs {
		for _, s := range q.it {
			fmt.Fprintf(&b, "  reached it: %s at port %d\n", s.String(), q.port)
		}
	}
	if c.hang > 0 {
		fmt.Fprintf(&b, "  reached it: hangup x%d\n", c.hang)
	}
	for _, o := range c.obs {
		fmt.Fprintf(&b, "  it: %s\n", o.String())
	}
	key := "model"
	if len(x.why) > 0 {
		key = classify(x.why[0])
	}
	rt.Fail(uniq(tags), key, "%s", b.String())
}

// classify makes a violation's class from its text, without the particulars.
func classify(s string) string {
	if i := strings.Index(s, " it should "); i >= 0 {
		s = s[i+4:]
	} else if i := strings.Index(s, " it didn't "); i >= 0 {
		s = s[i+4:]
	}
	var r []string
	for _, f := range strings.Fields(s) {
		if !strings.ContainsAny(f, ":;@\"=<>.[") || strings.IndexAny(f, ":;") == len(f)-1 {
			f = strings.Map(func(r rune) rune {
				if r >= '0' && r <= '9' {
					return -1
				}
				return r
			}, f)
			if f != "" {
				r = append(r, f)
			}
		}
	}
	s = strings.Join(r, " ")
	if len(s) > 90 {
		s = s[:90]
	}
	return s
}
