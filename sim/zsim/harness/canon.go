package main

import (
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
)

// cmsg is a SIP message in a form that allows comparing what was on the wire
// with what an application gets or gives.
type cmsg struct {
	start string
	vias  []cvia
	lists map[string][]string
	f     map[string]string
	x     []string
	body  string
	dup   bool // top Via had repeated received or rport parameters
}

type cvia struct {
	proto, host string
	port        int
	p           []Prm
}

func (v *cvia) get(name string) (string, bool) { return getP(v.P(), name) }
func (v *cvia) P() []Prm                       { return v.p }

func (v *cvia) count(name string) (n int) {
	for _, p := range v.p {
		if strings.EqualFold(name, p.Name) {
			n++
		}
	}
	return
}

func (v *cvia) drop(names ...string) {
	var l []Prm
	for _, p := range v.p {
		keep := true
		for _, n := range names {
			if strings.EqualFold(n, p.Name) {
				keep = false
			}
		}
		if keep {
			l = append(l, p)
		}
	}
	v.p = l
}

func sortedPrms(ps []Prm) string {
	var l []string
	for _, p := range ps {
		l = append(l, p.Name+"="+p.Value)
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (v *cvia) String() string {
	port := v.port
	if port == 0 {
		port = 5060 // Writing it or not is the same.
	}
	return fmt.Sprintf("%s %s %d;%s", v.proto, v.host, port, sortedPrms(v.p))
}

var strFields, addrFields = func() (map[string]string, map[string]bool) {
	m, a := map[string]string{}, map[string]bool{}
	t := reflect.TypeOf(sip.Msg{})
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		switch {
		case f.Type.Kind() == reflect.String && f.Name != "Method" && f.Name != "Phrase" && f.Name != "CallID" && f.Name != "CSeqMethod":
			m[strings.ToLower(f.Name)] = f.Name
		case f.Name == "Expires", f.Name == "MinExpires":
			m[strings.ToLower(f.Name)] = f.Name
		}
	}
	return m, a
}()

func hdrKey(name string) string { return strings.ToLower(strings.ReplaceAll(name, "-", "")) }

func flat(s string) string { return strings.Join(strings.Fields(s), " ") }

func unesc(s string) string {
	if t, err := url.PathUnescape(s); err == nil {
		return t
	}
	return s
}

// canonical form of a URI.
func cURI(u URI) string {
	user, pass := u.User, ""
	if i := strings.IndexByte(user, ':'); i >= 0 {
		user, pass = user[:i], user[i+1:]
	}
	var ps, hs []string
	for _, p := range u.P {
		ps = append(ps, unesc(p.Name)+"="+unesc(p.Value))
	}
	if u.Headers != "" {
		for _, h := range strings.Split(u.Headers, "&") {
			i := strings.IndexByte(h, '=')
			if i < 0 {
				h, i = h+"=", len(h)
			}
			hs = append(hs, unesc(h[:i])+"="+unesc(h[i+1:]))
		}
	}
	sort.Strings(ps)
	sort.Strings(hs)
	return fmt.Sprintf("%s:%s:%s@%s %d;%s?%s", strings.ToLower(u.Scheme), unesc(user), unesc(pass), strings.ToLower(u.Host), u.Port, strings.Join(ps, ";"), strings.Join(hs, "&"))
}

func cSipURI(u *sip.URI) string {
	if u == nil {
		return "nil"
	}
	var ps, hs []string
	for p := u.Param; p != nil; p = p.Next {
		ps = append(ps, p.Name+"="+p.Value)
	}
	for h := u.Header; h != nil; h = h.Next {
		hs = append(hs, h.Name+"="+h.Value)
	}
	sort.Strings(ps)
	sort.Strings(hs)
	sch := u.Scheme
	if sch == "" {
		sch = "sip"
	}
	return fmt.Sprintf("%s:%s:%s@%s %d;%s?%s", strings.ToLower(sch), u.User, u.Pass, strings.ToLower(u.Host), u.Port, strings.Join(ps, ";"), strings.Join(hs, "&"))
}

func cNA(n *NA) string {
	return fmt.Sprintf("%q <%s>;%s", flat(n.Display), cURI(n.U), sortedPrms(n.P))
}

func params(p *sip.Param) (r []Prm) {
	for ; p != nil; p = p.Next {
		r = append(r, Prm{Name: p.Name, Value: p.Value, Has: p.Value != ""})
	}
	return
}

func cAddr(a *sip.Addr) string {
	return fmt.Sprintf("%q <%s>;%s", flat(a.Display), cSipURI(a.Uri), sortedPrms(params(a.Param)))
}

// canonSM is for what was on the wire.
func canonSM(m *SM) *cmsg {
	c := &cmsg{lists: map[string][]string{}, f: map[string]string{}}
	if m.Resp {
		c.start = fmt.Sprintf("%d %s", m.Status, unesc(m.Phrase))
	} else {
		u, _ := parseURI(m.RURI)
		c.start = m.Method + " " + cURI(u)
	}
	for _, v := range m.Vias {
		x := cvia{strings.ReplaceAll(strings.ReplaceAll(v.Proto, " ", ""), "\t", ""), v.Host, v.Port, append([]Prm(nil), v.P...)}
		if x.proto == "" {
			x.proto = "SIP/2.0/UDP"
		}
		x.drop("usi")
		c.vias = append(c.vias, x)
	}
	add := func(k string, l []NA) {
		for i := range l {
			c.lists[k] = append(c.lists[k], cNA(&l[i]))
		}
	}
	add("from", []NA{m.From})
	add("to", []NA{m.To})
	add("route", m.Route)
	add("record-route", m.RR)
	add("contact", m.Contact)
	c.f["callid"] = m.CallID
	c.f["cseq"] = fmt.Sprint(m.CSeq, " ", m.CMethod)
	if m.MF > 0 {
		c.f["maxforwards"] = fmt.Sprint(m.MF)
	}
	for _, h := range m.H {
		k := hdrKey(h.Name)
		if full := compact2[k]; full != "" {
			k = full
		}
		v := flat(h.Value)
		switch {
		case k == "passertedidentity" || k == "remotepartyid":
			for _, s := range splitTop(h.Value, ',') {
				if n, ok := parseNA(s); ok {
					c.lists[k] = append(c.lists[k], cNA(&n))
				}
			}
		case k == "expires" || k == "minexpires":
			if n, err := strconv.Atoi(v); err == nil && n != 0 {
				c.f[k] = fmt.Sprint(n)
			}
		case strFields[k] != "":
			if v != "" && c.f[k] != "" {
				v = c.f[k] + ", " + v // RFC 3261 7.3.1
			}
			if v != "" {
				c.f[k] = v
			}
		default:
			c.x = append(c.x, h.Name+": "+v)
		}
	}
	if m.Body != "" {
		c.body = bodyText(m.CType, m.Body)
	}
	return c
}

var compact2 = map[string]string{"a": "acceptcontact", "o": "event", "u": "allowevents", "r": "referto", "b": "referredby", "s": "subject", "k": "supported", "e": "contentencoding"}

func bodyText(ctype, body string) string {
	if i := strings.IndexByte(ctype, ';'); i >= 0 {
		ctype = strings.TrimSpace(ctype[:i])
	}
	if ctype == "application/sdp" {
		return sdpText(body)
	}
	return fmt.Sprintf("%s %q", ctype, body)
}

// sdpText sums up a session description.
func sdpText(s string) string {
	var r []string
	maps, fm := map[string]string{}, map[string]string{}
	var media [][]string
	dir := "sendrecv"
	var attrs, other []string
	conn, audio, kind := "", "", ""
	for _, l := range strings.Split(s, "\r\n") {
		if len(l) < 3 {
			continue
		}
		v := l[2:]
		switch l[0] {
		case 'v':
		case 'o':
			f := strings.Fields(v)
			if len(f) == 6 {
				r = append(r, "o="+f[0]+" "+f[1]+" "+f[2]+" "+f[5])
			}
		case 's', 't':
			r = append(r, l)
		case 'c':
			if a := strings.Fields(v)[2]; kind == "audio" {
				audio = a
			} else if conn == "" {
				conn = a
			}
		case 'm':
			f := strings.Fields(v)
			kind = f[0]
			if kind == "audio" || kind == "video" {
				f[1], _, _ = strings.Cut(f[1], "/")
				media = append(media, f)
			}
		case 'a':
			switch {
			case strings.HasPrefix(v, "rtpmap:"):
				f := strings.SplitN(v[7:], " ", 2)
				maps[kind+f[0]] = f[1]
			case strings.HasPrefix(v, "fmtp:"):
				f := strings.SplitN(v[5:], " ", 2)
				fm[kind+f[0]] = f[1]
			case strings.HasPrefix(v, "ptime:"):
				r = append(r, "ptime="+v[6:])
			case v == "sendrecv" || v == "sendonly" || v == "recvonly":
				dir = v
			default:
				attrs = append(attrs, v)
			}
		default:
			other = append(other, l)
		}
	}
	if audio != "" {
		conn = audio
	}
	r = append(r, "c="+conn)
	sort.Slice(media, func(i, j int) bool { return media[i][0] < media[j][0] })
	for _, m := range media {
		t := "m=" + strings.Join(m[:3], " ")
		for _, pt := range m[3:] {
			n, ok := maps[m[0]+pt]
			if !ok {
				n = standard[pt]
			}
			t += " " + pt + " " + n + " " + fm[m[0]+pt] + ","
		}
		r = append(r, t)
	}
	r = append(r, dir, strings.Join(attrs, "|"), strings.Join(other, "|"))
	sort.Strings(r)
	return strings.Join(r, "\n")
}

func sdpStruct(s *sdp.SDP) string {
	var r []string
	user := s.Origin.User
	if user == "" {
		user = "-"
	}
	r = append(r, "o="+user+" "+s.Origin.ID+" "+s.Origin.Version+" "+s.Origin.Addr, "s="+s.Session, "t="+s.Time, "c="+s.Addr)
	med := func(n string, m *sdp.Media) {
		if m == nil {
			return
		}
		t := fmt.Sprintf("m=%s %d %s", n, m.Port, m.Proto)
		for _, c := range m.Codecs {
			x := fmt.Sprintf("%s/%d", c.Name, c.Rate)
			if c.Param != "" {
				x += "/" + c.Param
			}
			t += fmt.Sprintf(" %d %s %s,", c.PT, x, c.Fmtp)
		}
		r = append(r, t)
	}
	med("audio", s.Audio)
	med("video", s.Video)
	if s.Ptime > 0 {
		r = append(r, fmt.Sprintf("ptime=%d", s.Ptime))
	}
	dir := "sendrecv"
	if s.SendOnly {
		dir = "sendonly"
	} else if s.RecvOnly {
		dir = "recvonly"
	}
	var attrs, other []string
	for _, a := range s.Attrs {
		if a[1] != "" {
			a[0] += ":" + a[1]
		}
		attrs = append(attrs, a[0])
	}
	for _, a := range s.Other {
		other = append(other, a[0]+"="+a[1])
	}
	r = append(r, dir, strings.Join(attrs, "|"), strings.Join(other, "|"))
	sort.Strings(r)
	return strings.Join(r, "\n")
}

// canonMsg is for what an application has in hands.
func canonMsg(m *sip.Msg) *cmsg {
	c := &cmsg{lists: map[string][]string{}, f: map[string]string{}}
	if m.Status > 0 {
		c.start = fmt.Sprintf("%d %s", m.Status, m.Phrase)
	} else {
		c.start = m.Method + " " + cSipURI(m.Request)
	}
	for v := m.Via; v != nil; v = v.Next {
		p := func(s, d string) string {
			if s == "" {
				return d
			}
			return s
		}
		x := cvia{p(v.Protocol, "SIP") + "/" + p(v.Version, "2.0") + "/" + p(v.Transport, "UDP"), v.Host, int(v.Port), params(v.Param)}
		x.drop("usi")
		c.vias = append(c.vias, x)
	}
	add := func(k string, a *sip.Addr) {
		for ; a != nil; a = a.Next {
			c.lists[k] = append(c.lists[k], cAddr(a))
		}
	}
	add("from", m.From)
	add("to", m.To)
	add("route", m.Route)
	add("record-route", m.RecordRoute)
	add("contact", m.Contact)
	add("passertedidentity", m.PAssertedIdentity)
	add("remotepartyid", m.RemotePartyID)
	c.f["callid"] = m.CallID
	c.f["cseq"] = fmt.Sprint(m.CSeq, " ", m.CSeqMethod)
	if m.MaxForwards > 0 {
		c.f["maxforwards"] = fmt.Sprint(m.MaxForwards)
	}
	v := reflect.ValueOf(m).Elem()
	for k, f := range strFields {
		x := v.FieldByName(f)
		s := ""
		if x.Kind() == reflect.String {
			s = flat(x.String())
		} else if x.Int() != 0 {
			s = fmt.Sprint(x.Int())
		}
		if s != "" {
			c.f[k] = s
		}
	}
	for h := m.XHeader; h != nil; h = h.Next {
		c.x = append([]string{h.Name + ": " + flat(string(h.Value))}, c.x...)
	}
	switch p := m.Payload.(type) {
	case nil:
	case *sdp.SDP:
		if p != nil {
			c.body = sdpStruct(p)
		}
	default:
		if len(p.Data()) > 0 {
			c.body = bodyText(p.ContentType(), string(p.Data()))
		}
	}
	return c
}

func (c *cmsg) clone() *cmsg {
	r := *c
	r.vias = nil
	for _, v := range c.vias {
		v.p = append([]Prm(nil), v.p...)
		r.vias = append(r.vias, v)
	}
	r.lists = map[string][]string{}
	for k, l := range c.lists {
		r.lists[k] = append([]string(nil), l...)
	}
	r.f = map[string]string{}
	for k, v := range c.f {
		r.f[k] = v
	}
	return &r
}

func (c *cmsg) lines() []string {
	l := []string{"start line: " + c.start}
	for i := range c.vias {
		l = append(l, fmt.Sprintf("via %d: %s", i, c.vias[i].String()))
	}
	var ks []string
	for k := range c.lists {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for i, s := range c.lists[k] {
			l = append(l, fmt.Sprintf("%s %d: %s", k, i, s))
		}
	}
	ks = nil
	for k := range c.f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		l = append(l, k+": "+c.f[k])
	}
	for i, s := range c.x {
		l = append(l, fmt.Sprintf("extension %d: %s", i, s))
	}
	return append(l, "body: "+c.body)
}

func (c *cmsg) String() string { return strings.Join(c.lines(), "\n") }

// diff describes how what is differs from what should be.
func diff(is, should *cmsg) string {
	a, b := is.lines(), should.lines()
	in := func(s string, l []string) bool {
		for _, t := range l {
			if s == t {
				return true
			}
		}
		return false
	}
	r := ""
	n := 0
	for _, s := range b {
		if !in(s, a) && n < 6 {
			r += "\n  lacks " + clip(s)
			n++
		}
	}
	for _, s := range a {
		if !in(s, b) && n < 12 {
			r += "\n  has   " + clip(s)
			n++
		}
	}
	return r
}

func clip(s string) string {
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}
