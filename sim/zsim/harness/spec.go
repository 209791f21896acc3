package main

import (
	"net"
	"strings"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zsim/scrand"
)

// CallSpec is what the application fills in before it makes a call.
type CallSpec struct {
	Loose       bool
	RURI        string
	Route       []NA
	MF          int
	ViaHost     string
	ContactHost string
	CUser       string
	From, To    *NA
	CallID      string
	CSeq        int
	UA          string
	X           []Hdr
	SDP         bool
	SDPAddr     string
	SDPPort     int
	Codecs      []sdp.Codec
	Ptime       int
	Easy        bool // Made with sdp.New.
	Body        string
}

func (u URI) sip() *sip.URI {
	user, pass, _ := strings.Cut(u.User, ":")
	r := &sip.URI{Scheme: u.Scheme, User: unesc(user), Pass: unesc(pass), Host: u.Host, Port: uint16(u.Port)}
	for i := len(u.P) - 1; i >= 0; i-- {
		r.Param = &sip.URIParam{Name: unesc(u.P[i].Name), Value: unesc(u.P[i].Value), Next: r.Param}
	}
	return r
}

func sipParams(ps []Prm) (r *sip.Param) {
	for i := len(ps) - 1; i >= 0; i-- {
		r = &sip.Param{Name: ps[i].Name, Value: ps[i].Value, Next: r}
	}
	return
}

func (n *NA) sip() *sip.Addr {
	return &sip.Addr{Uri: n.U.sip(), Display: n.Display, Param: sipParams(n.P)}
}

func (s *CallSpec) invite() *sip.Msg {
	u, _ := parseURI(s.RURI)
	m := &sip.Msg{
		Method:      sip.MethodInvite,
		Request:     u.sip(),
		MaxForwards: s.MF,
		CallID:      s.CallID,
		CSeq:        s.CSeq,
		UserAgent:   s.UA,
	}
	for i := len(s.Route) - 1; i >= 0; i-- {
		a := s.Route[i].sip()
		a.Next = m.Route
		m.Route = a
	}
	if s.ViaHost != "" {
		m.Via = &sip.Via{Host: s.ViaHost}
	}
	if s.ContactHost != "" {
		m.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: s.CUser, Host: s.ContactHost}}
	}
	if s.From != nil {
		m.From = s.From.sip()
	}
	if s.To != nil {
		m.To = s.To.sip()
	}
	for i := len(s.X) - 1; i >= 0; i-- {
		h := s.X[i]
		switch h.Name {
		case "Subject":
			m.Subject = h.Value
		case "Allow":
			m.Allow = h.Value
		case "Supported":
			m.Supported = h.Value
		case "Authorization":
			m.Authorization = h.Value
		case "Proxy-Authorization":
			m.ProxyAuthorization = h.Value
		default:
			m.XHeader = &sip.XHeader{Name: h.Name, Value: []byte(h.Value), Next: m.XHeader}
		}
	}
	switch {
	case s.SDP && s.Easy:
		d := sdp.New(&net.UDPAddr{IP: net.ParseIP(s.SDPAddr), Port: s.SDPPort}, s.Codecs...)
		d.Ptime = s.Ptime
		m.Payload = d
	case s.SDP:
		m.Payload = s.desc(s.SDPAddr)
	case s.Body != "":
		m.Payload = &sip.MiscPayload{T: "text/plain", D: []byte(s.Body)}
	}
	return m
}

// desc is the session description meant.
func (s *CallSpec) desc(addr string) *sdp.SDP {
	return &sdp.SDP{
		Addr:    addr,
		Origin:  sdp.Origin{Addr: addr},
		Session: "-",
		Time:    "0 0",
		Ptime:   s.Ptime,
		Audio:   &sdp.Media{Proto: "RTP/AVP", Port: uint16(s.SDPPort), Codecs: append([]sdp.Codec{}, s.Codecs...)},
	}
}

// codecs says what the application can do.
func (s *CallSpec) codecs() {
	s.Codecs = []sdp.Codec{{PT: 0, Name: "PCMU", Rate: 8000}, {PT: 101, Name: "telephone-event", Rate: 8000, Fmtp: "0-16"}}
	if F(200) {
		s.Codecs = append([]sdp.Codec{{PT: 111, Name: "opus", Rate: 48000, Param: "2"}, {PT: 8, Name: "PCMA", Rate: 8000}}, s.Codecs...)
	}
	if F(200) {
		s.Ptime = pick(20, 40)
	}
	s.Easy = net.ParseIP(s.SDPAddr) != nil && scrand.FailRand == nil && F(400)
}
