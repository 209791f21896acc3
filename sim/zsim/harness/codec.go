package main

import (
	"bytes"
	"fmt"
	"net/netip"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A SIP codec independent of the one under test. It reads what the code under
// test emits and writes what simulated peers send.

type Hdr struct{ Name, Value string }

type Prm struct {
	Name, Value string
	Has         bool // has '='
}

type Via struct {
	Proto, Host string
	Port        int
	P           []Prm
	quoted      bool // received in quotes
}

func (v *Via) Get(name string) (string, bool) { return getP(v.P, name) }

func getP(ps []Prm, name string) (string, bool) {
	for _, p := range ps {
		if strings.EqualFold(p.Name, name) {
			return p.Value, true
		}
	}
	return "", false
}

func (v *Via) Branch() string { b, _ := v.Get("branch"); return b }

func (v *Via) String() string {
	h := v.Host
	if strings.Contains(h, ":") {
		h = "[" + h + "]"
	}
	if v.Port != 0 {
		h += ":" + strconv.Itoa(v.Port)
	}
	p := v.Proto
	if p == "" {
		p = "SIP/2.0/UDP"
	}
	return p + " " + h + prmStr(v.P)
}

func prmStr(ps []Prm) string {
	s := ""
	for _, p := range ps {
		s += ";" + p.Name
		if p.Has {
			s += "=" + p.val()
		}
	}
	return s
}

func (p Prm) val() string {
	if _, err := netip.ParseAddr(p.Value); err == nil && strings.EqualFold(p.Name, "received") {
		return p.Value
	}
	return quoteIf(p.Value)
}

const tokenChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.!%*_+`'~"

func isToken(s string) bool {
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(tokenChars, s[i]) < 0 {
			return false
		}
	}
	return s != ""
}

// isPhrase tells if that can be a reason phrase.
func isPhrase(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '%' {
			if i+2 >= len(s) || !isHex(s[i+1]) || !isHex(s[i+2]) {
				return false
			}
			i += 2
		} else if c < 0x80 && strings.IndexByte(alnum+"-_.!~*'();/?:@&=+$, \t", c) < 0 {
			return false
		}
	}
	return true
}

func isHex(c byte) bool {
	return '0' <= c && c <= '9' || 'a' <= c|32 && c|32 <= 'f'
}

func quoteIf(s string) string {
	if isToken(s) {
		return s
	}
	return quote(s)
}

func quote(s string) string {
	r := `"`
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' || s[i] < ' ' && s[i] != '\t' || s[i] == 127 {
			r += `\`
		}
		r += s[i : i+1]
	}
	return r + `"`
}

// URI in parts.
type URI struct {
	Scheme, User, Host string
	Port               int
	P                  []Prm
	Headers            string
}

func parseURI(s string) (u URI, ok bool) {
	i := strings.IndexByte(s, ':')
	if i <= 0 {
		return
	}
	u.Scheme, s = s[:i], s[i+1:]
	if j := strings.IndexByte(s, '@'); j >= 0 { // Users may contain semicolons and question marks.
		u.User, s = s[:j], s[j+1:]
	}
	if j := strings.IndexByte(s, '?'); j >= 0 {
		u.Headers, s = s[j+1:], s[:j]
	}
	rest := ""
	if j := strings.IndexByte(s, ';'); j >= 0 {
		rest, s = s[j:], s[:j]
	}
	u.Host, u.Port, ok = hostPort(s)
	if !ok {
		return
	}
	u.P = prms(rest)
	return
}

func hostPort(s string) (h string, port int, ok bool) {
	if strings.HasPrefix(s, "[") {
		j := strings.IndexByte(s, ']')
		if j < 0 {
			return
		}
		h = s[1:j]
		s = s[j+1:]
	} else if j := strings.IndexByte(s, ':'); j >= 0 {
		h, s = s[:j], s[j:]
	} else {
		h, s = s, ""
	}
	if h == "" {
		return
	}
	if s == "" {
		return h, 0, true
	}
	if s[0] != ':' {
		return
	}
	n, err := strconv.Atoi(s[1:])
	if err != nil || n < 0 || n > 65535 {
		return
	}
	return h, n, true
}

func (u URI) String() string {
	h := u.Host
	if strings.Contains(h, ":") {
		h = "[" + h + "]"
	}
	if u.User != "" {
		h = u.User + "@" + h
	}
	if u.Port != 0 {
		h += ":" + strconv.Itoa(u.Port)
	}
	s := u.Scheme + ":" + h
	for _, p := range u.P {
		s += ";" + p.Name
		if p.Has {
			s += "=" + p.Value // Still escaped, if it ever was.
		}
	}
	if u.Headers != "" {
		s += "?" + u.Headers
	}
	return s
}

func (u URI) Lr() bool { _, ok := getP(u.P, "lr"); return ok }

// canon is the URI with parameters sorted, for comparison.
func (u URI) canon() string {
	var ps []Prm
	for _, p := range u.P {
		ps = append(ps, Prm{unesc(p.Name), unesc(p.Value), p.Has})
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].Name < ps[j].Name })
	u.P = ps
	user, pass, _ := strings.Cut(u.User, ":")
	if u.User = unesc(user); pass != "" {
		u.User += " : " + unesc(pass)
	}
	return u.String()
}

func canonURI(s string) string {
	u, ok := parseURI(s)
	if !ok {
		return "?" + s
	}
	return u.canon()
}

func splitTop(s string, sep byte) []string {
	var out []string
	q, a := false, 0
	start := 0
	for i := 0; i < len(s); i++ {
		switch {
		case q && s[i] == '\\':
			i++
		case s[i] == '"':
			q = !q
		case q:
		case s[i] == '<':
			a++
		case s[i] == '>':
			a--
		case s[i] == sep && a == 0:
			out = append(out, s[start:i])
			start = i + 1
		}
	}
	return append(out, s[start:])
}

func unquote(s string) string {
	if len(s) < 2 || s[0] != '"' {
		return s
	}
	s = s[1 : len(s)-1]
	r := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
		}
		r = append(r, s[i])
	}
	return string(r)
}

func prms(s string) []Prm {
	var r []Prm
	for i, p := range splitTop(s, ';') {
		p = strings.TrimSpace(p)
		if i == 0 && p == "" || p == "" {
			continue
		}
		if j := strings.IndexByte(p, '='); j >= 0 {
			r = append(r, Prm{strings.TrimSpace(p[:j]), unquote(strings.TrimSpace(p[j+1:])), true})
		} else {
			r = append(r, Prm{Name: p})
		}
	}
	return r
}

type NA struct { // name-addr
	Display string
	U       URI
	P       []Prm
}

func (n *NA) Tag() string { t, _ := getP(n.P, "tag"); return t }

func (n *NA) String() string {
	s := ""
	if n.Display != "" {
		s = quote(n.Display) + " "
	}
	return s + "<" + n.U.String() + ">" + prmStr(n.P)
}

func (n *NA) canon() string {
	if n == nil {
		return "-"
	}
	ps := append([]Prm(nil), n.P...)
	sort.SliceStable(ps, func(i, j int) bool { return strings.ToLower(ps[i].Name) < strings.ToLower(ps[j].Name) })
	return fmt.Sprintf("%q <%s>%s", n.Display, n.U.canon(), strings.ToLower(prmNames(ps)))
}

func prmNames(ps []Prm) string {
	s := ""
	for _, p := range ps {
		s += ";" + p.Name + "=" + p.Value
	}
	return s
}

func parseNA(s string) (n NA, ok bool) {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '<'); i >= 0 && !strings.Contains(unqOnly(s[:i]), ":") {
		// find '<' outside of quotes
		q := false
		for i = 0; i < len(s); i++ {
			if q && s[i] == '\\' {
				i++
				continue
			}
			if s[i] == '"' {
				q = !q
			}
			if s[i] == '<' && !q {
				break
			}
		}
		if i >= len(s) {
			return
		}
		n.Display = unquote(strings.TrimSpace(s[:i]))
		s = s[i+1:]
		j := strings.IndexByte(s, '>')
		if j < 0 {
			return
		}
		n.U, ok = parseURI(s[:j])
		n.P = prms(s[j+1:])
		return
	}
	j := strings.IndexByte(s, ';')
	rest := ""
	if j >= 0 {
		rest, s = s[j:], s[:j]
	}
	n.U, ok = parseURI(strings.TrimSpace(s))
	n.P = prms(rest)
	return
}

func unqOnly(s string) string {
	r := ""
	q := false
	for i := 0; i < len(s); i++ {
		if q && s[i] == '\\' {
			i++
			continue
		}
		if s[i] == '"' {
			q = !q
			continue
		}
		if !q {
			r += s[i : i+1]
		}
	}
	return r
}

// SM is a SIP message.
type SM struct {
	Raw     string
	Resp    bool
	Method  string // of request line
	RURI    string
	Version string
	Alien   string // version other than SIP/2.0 it is to have
	Status  int
	Phrase  string
	H       []Hdr // everything not listed below, in order
	Vias    []Via
	From    NA
	To      NA
	CallID  string
	CSeq    int
	CMethod string
	Contact []NA
	Route   []NA
	RR      []NA
	MF      int // -1 absent
	CType   string
	Body    string
	Lower   bool // version in lower case
	Surplus int  // bytes that follow the body
}

var compact = map[string]string{"v": "via", "f": "from", "t": "to", "i": "call-id", "m": "contact", "l": "content-length", "c": "content-type", "s": "subject", "k": "supported", "e": "content-encoding"}

// parseSM is strict: anything odd in what the code under test emits is an error.
func parseSM(b []byte) (m *SM, err error) {
	m, err = readSM(b)
	for _, v := range m.Vias {
		if v.quoted && err == nil {
			err = fmt.Errorf("received address in quotes")
		}
		if err == nil && repeated(v.P, "branch") {
			err = fmt.Errorf("Via with two branches")
		}
	}
	if err == nil && (repeated(m.From.P, "tag") || repeated(m.To.P, "tag")) {
		err = fmt.Errorf("address with two tags")
	}
	if err == nil && m.Lower {
		err = fmt.Errorf("version in lower case")
	}
	if err == nil && m.Surplus > 0 {
		err = fmt.Errorf("content-length %d but %d bytes of body", len(m.Body), len(m.Body)+m.Surplus)
	}
	for _, h := range m.H {
		if err != nil {
			break
		}
		switch k := hdrKey(h.Name); {
		case (k == "expires" || k == "minexpires") && strings.TrimSpace(h.Value) == "0" && m.CMethod != "REGISTER":
			err = fmt.Errorf("nothing can have asked for %s: %s", h.Name, h.Value)
		case strFields[k] != "" && h.Value == "":
			err = fmt.Errorf("%s has no value", h.Name)
		}
	}
	return
}

func repeated(ps []Prm, name string) bool {
	n := 0
	for _, p := range ps {
		if strings.EqualFold(p.Name, name) {
			n++
		}
	}
	return n > 1
}

// readSM ignores what comes after the body.
func readSM(b []byte) (m *SM, err error) {
	m = &SM{Raw: string(b), MF: -1}
	s := m.Raw
	end := strings.Index(s, "\r\n\r\n")
	if end < 0 {
		return m, fmt.Errorf("no end of headers")
	}
	m.Body = s[end+4:]
	lines := strings.Split(s[:end], "\r\n")
	f := strings.SplitN(lines[0], " ", 3)
	if len(f) != 3 {
		return m, fmt.Errorf("bad start line %q", lines[0])
	}
	if strings.HasPrefix(strings.ToUpper(f[0]), "SIP/") {
		m.Resp = true
		m.Version = f[0]
		m.Status, err = strconv.Atoi(f[1])
		if err != nil || len(f[1]) != 3 {
			return m, fmt.Errorf("bad status %q", lines[0])
		}
		m.Phrase = f[2]
		if !isPhrase(m.Phrase) {
			return m, fmt.Errorf("bad phrase %q", lines[0])
		}
	} else {
		m.Method, m.RURI, m.Version = f[0], f[1], f[2]
		if !isToken(m.Method) {
			return m, fmt.Errorf("bad method %q", lines[0])
		}
		if _, ok := parseURI(m.RURI); !ok {
			return m, fmt.Errorf("bad request uri %q", lines[0])
		}
	}
	if m.Lower = m.Version == "sip/2.0"; m.Lower {
		m.Version = "SIP/2.0"
	}
	if m.Version != "SIP/2.0" {
		return m, fmt.Errorf("bad version %q", lines[0])
	}
	var hl []string
	for _, l := range lines[1:] {
		if l != "" && (l[0] == ' ' || l[0] == '\t') && len(hl) > 0 {
			hl[len(hl)-1] += " " + strings.TrimLeft(l, " \t")
			continue
		}
		hl = append(hl, l)
	}
	seen := map[string]bool{}
	clen := -1
	for _, l := range hl {
		i := strings.IndexByte(l, ':')
		if i <= 0 {
			return m, fmt.Errorf("bad header %q", l)
		}
		name := strings.TrimRight(l[:i], " \t")
		if !isToken(name) {
			return m, fmt.Errorf("bad header name %q", l)
		}
		val := strings.TrimSpace(l[i+1:])
		key := strings.ToLower(name)
		if c := compact[key]; c != "" {
			key = c
		}
		switch key {
		case "from", "to", "call-id", "cseq", "max-forwards", "content-length", "content-type":
			if seen[key] {
				return m, fmt.Errorf("repeated header %q", l)
			}
			seen[key] = true
		}
		switch key {
		case "via":
			for _, v := range splitTop(val, ',') {
				via, ok := parseVia(strings.TrimSpace(v))
				if !ok {
					return m, fmt.Errorf("bad via %q", l)
				}
				m.Vias = append(m.Vias, via)
			}
		case "from", "to", "contact", "route", "record-route":
			if key == "contact" && val == "*" {
				m.H = append(m.H, Hdr{name, val})
				continue
			}
			for _, v := range splitTop(val, ',') {
				n, ok := parseNA(v)
				if !ok {
					return m, fmt.Errorf("bad address %q", l)
				}
				switch key {
				case "from":
					m.From = n
				case "to":
					m.To = n
				case "contact":
					m.Contact = append(m.Contact, n)
				case "route":
					m.Route = append(m.Route, n)
				case "record-route":
					m.RR = append(m.RR, n)
				}
			}
		case "call-id":
			m.CallID = val
		case "cseq":
			p := strings.Fields(val)
			if len(p) != 2 {
				return m, fmt.Errorf("bad cseq %q", l)
			}
			m.CSeq, err = strconv.Atoi(p[0])
			if err != nil {
				return m, fmt.Errorf("bad cseq %q", l)
			}
			m.CMethod = p[1]
		case "max-forwards":
			m.MF, err = strconv.Atoi(val)
			if err != nil {
				return m, fmt.Errorf("bad max-forwards %q", l)
			}
		case "content-length":
			clen, err = strconv.Atoi(val)
			if err != nil {
				return m, fmt.Errorf("bad content-length %q", l)
			}
		case "content-type":
			m.CType = val
		default:
			m.H = append(m.H, Hdr{name, val})
		}
	}
	for _, n := range []string{"from", "to", "call-id", "cseq"} {
		if !seen[n] {
			return m, fmt.Errorf("missing header %s", n)
		}
	}
	if len(m.Vias) == 0 {
		return m, fmt.Errorf("missing via")
	}
	if m.CallID == "" {
		return m, fmt.Errorf("empty call-id")
	}
	if clen >= 0 && clen < len(m.Body) {
		m.Surplus = len(m.Body) - clen
		m.Body = m.Body[:clen]
	}
	if clen > len(m.Body) {
		return m, fmt.Errorf("content-length %d but %d bytes of body", clen, len(m.Body))
	}
	if !m.Resp && m.CMethod != m.Method {
		return m, fmt.Errorf("cseq method %s in %s request", m.CMethod, m.Method)
	}
	return m, nil
}

func parseVia(s string) (v Via, ok bool) {
	rest := ""
	if j := strings.IndexByte(s, ';'); j >= 0 {
		rest, s = s[j:], s[:j]
	}
	f := strings.SplitN(s, "/", 3)
	if len(f) != 3 {
		return
	}
	t := strings.TrimLeft(f[2], " \t")
	i := strings.IndexAny(t, " \t")
	if i < 0 {
		return
	}
	v.Proto = strings.TrimSpace(f[0]) + "/" + strings.TrimSpace(f[1]) + "/" + t[:i]
	v.Host, v.Port, ok = hostPort(strings.Join(strings.Fields(t[i:]), ""))
	v.P = prms(rest)
	for _, p := range v.P {
		// An address, which is neither quoted nor in brackets.
		if _, err := netip.ParseAddr(p.Value); err == nil && strings.EqualFold(p.Name, "received") && strings.Contains(rest, `"`+p.Value+`"`) {
			v.quoted = true
		}
	}
	return
}

func (m *SM) Hget(name string) (string, bool) {
	for _, h := range m.H {
		if strings.EqualFold(h.Name, name) {
			return h.Value, true
		}
	}
	return "", false
}

func (m *SM) Via() *Via { return &m.Vias[0] }

// Bytes formats the message.
func (m *SM) version() string {
	if m.Alien != "" {
		return m.Alien
	}
	return "SIP/2.0"
}

// parseAlien reads messages of any version.
func parseAlien(b []byte) (*SM, error) {
	m, err := readSM(b)
	if err == nil || m == nil || m.Version == "SIP/2.0" {
		return m, err
	}
	var x, y int
	var rest string
	if n, _ := fmt.Sscanf(m.Version+" ", "SIP/%d.%d%s", &x, &y, &rest); n != 2 || x > 255 || y > 255 || x < 0 || y < 0 {
		return m, err
	}
	v := m.Version
	i := bytes.Index(b, []byte(v))
	m, err = readSM([]byte(string(b[:i]) + "SIP/2.0" + string(b[i+len(v):])))
	if err == nil {
		m.Raw = string(b)
		if x != 2 || y != 0 {
			m.Alien = v
		}
	}
	return m, err
}

func (m *SM) Bytes() []byte {
	var b strings.Builder
	if m.Resp {
		ph := m.Phrase
		if ph == "" {
			ph = "Whatever"
		}
		fmt.Fprintf(&b, "%s %d %s\r\n", m.version(), m.Status, ph)
	} else {
		fmt.Fprintf(&b, "%s %s %s\r\n", m.Method, m.RURI, m.version())
	}
	for i := range m.Vias {
		fmt.Fprintf(&b, "Via: %s\r\n", m.Vias[i].String())
	}
	for _, r := range []struct {
		n string
		l []NA
	}{{"Route", m.Route}, {"Record-Route", m.RR}, {"Contact", m.Contact}} {
		if len(r.l) > 0 {
			var p []string
			for i := range r.l {
				p = append(p, r.l[i].String())
			}
			fmt.Fprintf(&b, "%s: %s\r\n", r.n, strings.Join(p, ", "))
		}
	}
	fmt.Fprintf(&b, "From: %s\r\nTo: %s\r\nCall-ID: %s\r\nCSeq: %d %s\r\n", m.From.String(), m.To.String(), m.CallID, m.CSeq, m.CMethod)
	if m.MF >= 0 {
		fmt.Fprintf(&b, "Max-Forwards: %d\r\n", m.MF)
	}
	for _, h := range m.H {
		fmt.Fprintf(&b, "%s: %s\r\n", h.Name, h.Value)
	}
	if m.Body != "" {
		fmt.Fprintf(&b, "Content-Type: %s\r\n", m.CType)
	}
	fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(m.Body), m.Body)
	return []byte(b.String())
}

func (m *SM) clone() *SM {
	c := *m
	c.Vias = nil
	for _, v := range m.Vias {
		v.P = append([]Prm(nil), v.P...)
		c.Vias = append(c.Vias, v)
	}
	c.H = append([]Hdr(nil), m.H...)
	c.Contact = append([]NA(nil), m.Contact...)
	c.Route = append([]NA(nil), m.Route...)
	c.RR = append([]NA(nil), m.RR...)
	c.To.P = append([]Prm(nil), m.To.P...)
	c.From.P = append([]Prm(nil), m.From.P...)
	return &c
}

// respond makes a response to a request the way RFC 3261 wants it.
func (m *SM) respond(status int, toTag string) *SM {
	r := &SM{Resp: true, Status: status, From: m.From, To: m.To, CallID: m.CallID, CSeq: m.CSeq, CMethod: m.CMethod, MF: -1}
	for _, v := range m.Vias {
		v.P = append([]Prm(nil), v.P...)
		r.Vias = append(r.Vias, v)
	}
	r.To.P = append([]Prm(nil), m.To.P...)
	if toTag != "" && r.To.Tag() == "" {
		r.To.P = append(r.To.P, Prm{"tag", toTag, true})
	}
	return r
}

// sdpPeer is the connection address and audio port of a session description.
func sdpPeer(ctype, body string) (host string, port int, ok bool) {
	if !strings.HasPrefix(strings.ToLower(ctype), "application/sdp") {
		return
	}
	audio, own := false, ""
	for _, l := range strings.Split(body, "\r\n") {
		if strings.HasPrefix(l, "c=") {
			if f := strings.Fields(l[2:]); len(f) == 3 {
				if audio {
					own = f[2] // Overrides that of the session.
				} else if host == "" {
					host = f[2]
				}
			}
		}
		if strings.HasPrefix(l, "m=") {
			audio = strings.HasPrefix(l, "m=audio ")
			if audio {
				p, _, _ := strings.Cut(strings.Fields(l)[1], "/")
				port, _ = strconv.Atoi(p)
				ok = true
			}
		}
	}
	if own != "" {
		host = own
	}
	return host, port, ok && host != ""
}
