// Package snet stands in for package net: UDP sockets, DNS and ICMP of a
// simulated internet whose delays, losses and failures are drawn from the NET
// choice stream or dictated by the scenario.
package snet

import (
	"context"
	"errors"
	"fmt"
	"net"
	"net/netip"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/jart/gosip/zsim/rt"
)

// Things that need no simulation.
type (
	Addr                = net.Addr
	UDPAddr             = net.UDPAddr
	IPAddr              = net.IPAddr
	IP                  = net.IP
	IPMask              = net.IPMask
	IPNet               = net.IPNet
	OpError             = net.OpError
	AddrError           = net.AddrError
	DNSError            = net.DNSError
	ParseError          = net.ParseError
	Error               = net.Error
	SRV                 = net.SRV
	Conn                = net.Conn
	PacketConn          = net.PacketConn
	UnknownNetworkError = net.UnknownNetworkError
)

var (
	ErrClosed           = net.ErrClosed
	ErrWriteToConnected = net.ErrWriteToConnected
)

// Packet is a datagram on the wire.
type Packet struct {
	ID       int
	Src, Dst netip.AddrPort
	Data     []byte
	Sent     int64
	Dup      bool
	Corrupt  bool
}

// World is the simulated internet of a run.
type World struct {
	hosts  map[netip.Addr]*Host
	byName map[string]*Host
	names  []string
	DNS    map[string][]netip.Addr
	SRVs   map[string][]*net.SRV
	DNSErr map[string]error
	pktID  int

	// Knobs, all off by default.
	Latency    func(src, dst netip.Addr) time.Duration
	LossPM     int
	DupPM      int
	CorruptPM  int
	TruncPM    int
	ReorderPM  int
	Jitter     time.Duration
	FaultsTill int64 // faults only before this time (0: always)
	Cut        func(src, dst netip.Addr) bool
	NoICMP     bool
	QueueCap   int
	DNSDelay   time.Duration

	OnSend    func(p *Packet)                                           // every datagram handed to the network
	OnAccept  func(c *UDPConn, p *Packet)                               // every datagram queued on a system socket
	OnRefuse  func(c *UDPConn)                                          // pending ICMP error set
	OnWrite   func(c *UDPConn, dst netip.AddrPort, b []byte, err error) // every write a system socket attempts
	OnPending func(c *UDPConn, err error, byWrite bool)                 // pending socket error consumed
	OnOpen    func(c *UDPConn)
	OnClose   func(c *UDPConn)
	WriteErr  func(c *UDPConn, b []byte) error
	ReadErr   func(c *UDPConn) error
	DialErr   func(host *Host, addr string) error
	BindErr   func(host *Host, addr string) error
	BindTry   func(host *Host, addr string, err error)
	LookupErr func(name string) error
}

type Host struct {
	Name  string
	IPs   []netip.Addr
	Socks []*UDPConn
	W     *World
	next  int
	Down  bool // swallows everything, no ICMP
}

func W() *World { return rt.S.Aux.(*World) }

func NewWorld() *World {
	w := &World{hosts: map[netip.Addr]*Host{}, byName: map[string]*Host{}, DNS: map[string][]netip.Addr{}, SRVs: map[string][]*net.SRV{}, DNSErr: map[string]error{}, QueueCap: 64}
	rt.S.Aux = w
	return w
}

func (w *World) AddHost(name string, ips ...string) *Host {
	h := &Host{Name: name, W: w, next: 40000}
	for _, s := range ips {
		a := netip.MustParseAddr(s)
		h.IPs = append(h.IPs, a)
		w.hosts[a] = h
	}
	w.byName[name] = h
	w.names = append(w.names, name)
	return h
}

func (w *World) HostOf(ip netip.Addr) *Host { return w.hosts[ip.Unmap()] }
func (w *World) Host(name string) *Host     { return w.byName[name] }

func (w *World) Faulty() bool { return w.faulty() }

func (w *World) faulty() bool { return w.FaultsTill == 0 || rt.Now() < w.FaultsTill }

func cur() *Host {
	h := W().byName[rt.Cur().Host]
	if h == nil {
		panic("snet: task has no host: " + rt.Cur().Host)
	}
	return h
}

// UDPConn is a socket.
type UDPConn struct {
	host     *Host
	network  string
	laddr    netip.AddrPort
	wild     bool
	raddr    netip.AddrPort // valid if connected
	rname    string
	q        []*Packet
	pending  error
	dead     error // what every read says from now on
	closed   bool
	rd       rt.WaitQ
	rdl      time.Time
	wdl      time.Time
	Handler  func(p *Packet) // peer sockets of the harness
	Owner    string          // group of the task that opened it
	OpenedAt int64
	Reads    int // datagrams taken off the queue
	Accepted int // datagrams ever queued
	Drops    int
}

func (c *UDPConn) Local() netip.AddrPort  { return c.laddr }
func (c *UDPConn) Remote() netip.AddrPort { return c.raddr }
func (c *UDPConn) IsOpen() bool           { return !c.closed }
func (c *UDPConn) Queued() int            { return len(c.q) }
func (c *UDPConn) Wild() bool             { return c.wild }
func (c *UDPConn) HostOf() *Host          { return c.host }

func toUDP(a netip.AddrPort) *net.UDPAddr {
	if !a.IsValid() {
		return nil
	}
	ip := a.Addr().Unmap()
	var b net.IP
	if ip.Is4() {
		x := ip.As4()
		b = net.IPv4(x[0], x[1], x[2], x[3])
	} else {
		x := ip.As16()
		b = net.IP(x[:])
	}
	return &net.UDPAddr{IP: b, Port: int(a.Port())}
}

func fromUDP(a *net.UDPAddr) (netip.AddrPort, bool) {
	if a == nil {
		return netip.AddrPort{}, false
	}
	ip, ok := netip.AddrFromSlice(a.IP)
	if !ok {
		if len(a.IP) == 0 {
			ip = netip.IPv4Unspecified()
		} else {
			return netip.AddrPort{}, false
		}
	}
	return netip.AddrPortFrom(ip.Unmap(), uint16(a.Port)), true
}

func (h *Host) portTaken(ip netip.Addr, wild bool, port uint16) bool {
	for _, s := range h.Socks {
		if s.laddr.Port() == port && (wild || s.wild || s.laddr.Addr() == ip) {
			return true
		}
	}
	return false
}

func (h *Host) ephemeral(ip netip.Addr, wild bool) uint16 {
	for {
		h.next += 1 + rt.Choose(rt.NET, 50)
		if h.next > 60000 {
			h.next = 40000
		}
		if !h.portTaken(ip, wild, uint16(h.next)) {
			return uint16(h.next)
		}
	}
}

func (h *Host) open(network string, laddr netip.AddrPort, wild bool) (*UDPConn, error) {
	port := laddr.Port()
	if port == 0 {
		port = h.ephemeral(laddr.Addr(), wild)
	} else if h.portTaken(laddr.Addr(), wild, port) {
		return nil, os.NewSyscallError("bind", syscall.EADDRINUSE)
	}
	c := &UDPConn{host: h, network: network, laddr: netip.AddrPortFrom(laddr.Addr(), port), wild: wild, OpenedAt: rt.Now()}
	if g := rt.Cur(); g != nil {
		c.Owner = g.Group
	}
	h.Socks = append(h.Socks, c)
	if h.W.OnOpen != nil {
		h.W.OnOpen(c)
	}
	return c, nil
}

// OpenPeer opens a harness socket whose datagrams go to handler.
func (h *Host) OpenPeer(addr string, handler func(p *Packet)) *UDPConn {
	ap := netip.MustParseAddrPort(addr)
	if h.portTaken(ap.Addr(), ap.Addr().IsUnspecified(), ap.Port()) {
		return nil
	}
	c := &UDPConn{host: h, network: "udp", laddr: ap, wild: ap.Addr().IsUnspecified(), Handler: handler}
	h.Socks = append(h.Socks, c)
	return c
}

// ClosePeer closes a harness socket.
func (c *UDPConn) ClosePeer() { c.closed = true; c.host.remove(c) }

func (h *Host) remove(c *UDPConn) {
	for i, s := range h.Socks {
		if s == c {
			h.Socks = append(h.Socks[:i:i], h.Socks[i+1:]...)
			return
		}
	}
}

// SendFrom emits a datagram of a harness socket.
func (c *UDPConn) SendFrom(dst netip.AddrPort, data []byte) {
	src := c.laddr
	if c.wild {
		src = netip.AddrPortFrom(c.host.sourceFor(dst.Addr()), src.Port())
	}
	c.host.W.Transmit(&Packet{Src: src, Dst: dst, Data: append([]byte(nil), data...)})
}

func (h *Host) sourceFor(dst netip.Addr) netip.Addr {
	for _, a := range h.IPs {
		if a.Is4() == dst.Unmap().Is4() {
			return a
		}
	}
	return netip.Addr{}
}

// Family returns the host's address of a family.
func (h *Host) Family(is4 bool) netip.Addr {
	for _, a := range h.IPs {
		if a.Is4() == is4 {
			return a
		}
	}
	return netip.Addr{}
}

// Transmit hands a datagram to the network.
func (w *World) Transmit(p *Packet) {
	w.pktID++
	p.ID = w.pktID
	p.Sent = rt.Now()
	rt.Note("send", p.ID, rt.HashBytes(p.Data), func() string {
		return fmt.Sprintf("#%d %s -> %s %d bytes: %s", p.ID, p.Src, p.Dst, len(p.Data), Head(p.Data))
	})
	rt.Stat("net.sent")
	if w.OnSend != nil {
		w.OnSend(p)
	}
	d := time.Duration(0)
	if w.Latency != nil {
		d = w.Latency(p.Src.Addr(), p.Dst.Addr())
	}
	if w.faulty() {
		if w.Cut != nil && w.Cut(p.Src.Addr(), p.Dst.Addr()) {
			rt.Stat("fault.partition_drop")
			return
		}
		if w.Jitter > 0 {
			d += time.Duration(rt.Choose(rt.NET, int(w.Jitter)))
		}
		if rt.Flip(rt.NET, w.LossPM) {
			rt.Stat("fault.loss")
			rt.Note("lose", p.ID, 0, nil)
			return
		}
		if rt.Flip(rt.NET, w.ReorderPM) {
			rt.Stat("fault.reorder_delay")
			d += time.Duration(1+rt.Choose(rt.NET, 900)) * time.Millisecond
		}
		if rt.Flip(rt.NET, w.DupPM) {
			rt.Stat("fault.duplicate")
			q := *p
			q.Dup = true
			rt.After(d+time.Duration(1+rt.Choose(rt.NET, 700_000_000)), func() { w.deliver(&q) })
		}
		if rt.Flip(rt.NET, w.CorruptPM) && len(p.Data) > 0 {
			rt.Stat("fault.corrupt")
			q := *p
			q.Data = append([]byte(nil), p.Data...)
			q.Corrupt = true
			for n := 1 + rt.Choose(rt.NET, 4); n > 0; n-- {
				q.Data[rt.Choose(rt.NET, len(q.Data))] = byte(rt.Choose(rt.NET, 256))
			}
			p = &q
		}
		if rt.Flip(rt.NET, w.TruncPM) && len(p.Data) > 0 {
			rt.Stat("fault.truncate")
			q := *p
			q.Corrupt = true
			q.Data = q.Data[:rt.Choose(rt.NET, len(q.Data))]
			p = &q
		}
	}
	if d == 0 {
		rt.At(rt.Now(), func() { w.deliver(p) })
	} else {
		rt.After(d, func() { w.deliver(p) })
	}
}

// Head is the first line of a packet for logs.
func Head(b []byte) string {
	s := string(b)
	if len(b) >= 12 && b[0]>>6 == 2 {
		return fmt.Sprintf("RTP pt=%d m=%d seq=%d ts=%d", b[1]&127, b[1]>>7, int(b[2])<<8|int(b[3]), uint32(b[4])<<24|uint32(b[5])<<16|uint32(b[6])<<8|uint32(b[7]))
	}
	if i := strings.IndexAny(s, "\r\n"); i >= 0 {
		cs := ""
		if j := strings.Index(s, "CSeq:"); j >= 0 {
			cs = s[j:]
			if k := strings.IndexAny(cs, "\r\n"); k >= 0 {
				cs = cs[:k]
			}
		}
		s = s[:i] + " [" + cs + "]"
	}
	if len(s) > 140 {
		s = s[:140]
	}
	return strconv.Quote(s)
}

func (w *World) deliver(p *Packet) {
	h := w.HostOf(p.Dst.Addr())
	if h == nil || h.Down {
		rt.Stat("net.blackholed")
		return
	}
	if w.Cut != nil && w.faulty() && w.Cut(p.Src.Addr(), p.Dst.Addr()) {
		rt.Stat("fault.partition_drop")
		return
	}
	var best *UDPConn
	score := -1
	for _, s := range h.Socks {
		if s.laddr.Port() != p.Dst.Port() {
			continue
		}
		sc := 0
		if s.wild {
			if s.laddr.Addr().Is4() && !p.Dst.Addr().Unmap().Is4() {
				continue
			}
		} else {
			if s.laddr.Addr() != p.Dst.Addr().Unmap() {
				continue
			}
			sc = 1
		}
		if s.raddr.IsValid() {
			if s.raddr != p.Src {
				continue
			}
			sc += 2
		}
		if sc > score {
			best, score = s, sc
		}
	}
	if best == nil {
		rt.Stat("net.unreachable")
		if !w.NoICMP {
			w.icmp(p)
		}
		return
	}
	if best.Handler != nil {
		rt.Note("peer", p.ID, 0, nil)
		best.Handler(p)
		return
	}
	if len(best.q) >= w.QueueCap {
		best.Drops++
		rt.Stat("fault.queue_overflow")
		return
	}
	rt.Note("recv", p.ID, rt.HashBytes(p.Data), func() string {
		return fmt.Sprintf("#%d %s <- %s: %s", p.ID, best.laddr, p.Src, Head(p.Data))
	})
	best.q = append(best.q, p)
	best.Accepted++
	rt.Stat("net.delivered")
	if w.OnAccept != nil {
		w.OnAccept(best, p)
	}
	best.rd.WakeOne()
}

func (w *World) icmp(p *Packet) {
	d := time.Duration(0)
	if w.Latency != nil {
		d = w.Latency(p.Dst.Addr(), p.Src.Addr())
	}
	if w.faulty() && rt.Flip(rt.NET, w.LossPM) {
		rt.Stat("fault.icmp_lost")
		return
	}
	src, dst := p.Src, p.Dst
	rt.After(d, func() {
		h := w.HostOf(src.Addr())
		if h == nil {
			return
		}
		for _, s := range h.Socks {
			if s.raddr.IsValid() && s.raddr == dst && s.laddr == src {
				s.Refuse()
			}
		}
	})
}

// Refuse makes an ICMP port unreachable arrive for a connected socket.
func (c *UDPConn) Refuse() {
	if c.closed {
		return
	}
	rt.Stat("fault.icmp_refused")
	rt.Note("icmp", int(c.laddr.Port()), 0, func() string { return "port unreachable for " + c.laddr.String() + " from " + c.raddr.String() })
	c.pending = os.NewSyscallError("recvfrom", syscall.ECONNREFUSED)
	if c.host.W.OnRefuse != nil {
		c.host.W.OnRefuse(c)
	}
	c.rd.WakeOne()
}

// Break makes the next read of the socket fail for good.
func (c *UDPConn) Break(err error) {
	if c.closed {
		return
	}
	rt.Stat("fault.read_error")
	c.pending = err
	c.rd.WakeOne()
}

// Kill makes reading fail from now on; writing still works.
func (c *UDPConn) Kill(err error) {
	if c.closed {
		return
	}
	rt.Stat("fault.read_error")
	c.dead = err
	c.rd.WakeAll()
}

func (c *UDPConn) PendingErr() bool { return c.pending != nil }

func (c *UDPConn) opErr(op string, err error, addr net.Addr) error {
	return &net.OpError{Op: op, Net: c.network, Source: c.LocalAddr(), Addr: addr, Err: err}
}

func (c *UDPConn) LocalAddr() net.Addr {
	if c == nil {
		return nil
	}
	return c.local()
}

func (c *UDPConn) local() *net.UDPAddr { return toUDP(c.laddr) }

func (c *UDPConn) RemoteAddr() net.Addr {
	// Like the real one, this crashes when c is nil.
	if !c.raddr.IsValid() {
		return nil
	}
	return toUDP(c.raddr)
}

func (c *UDPConn) Close() error {
	if c == nil {
		return syscall.EINVAL
	}
	if rt.Killing() {
		return nil
	}
	rt.Point("close-sock")
	if c.closed {
		return c.opErr("close", net.ErrClosed, c.RemoteAddr())
	}
	rt.Note("close", int(c.laddr.Port()), 0, func() string { return "socket " + c.laddr.String() })
	c.closed = true
	c.host.remove(c)
	c.rd.WakeAll()
	if c.host.W.OnClose != nil {
		c.host.W.OnClose(c)
	}
	return nil
}

func (c *UDPConn) remoteOrNil() net.Addr {
	if c.raddr.IsValid() {
		return toUDP(c.raddr)
	}
	return nil
}

func (c *UDPConn) recv(b []byte) (int, netip.AddrPort, error) {
	if c == nil {
		return 0, netip.AddrPort{}, syscall.EINVAL
	}
	rt.Point("read")
	w := c.host.W
	for {
		if c.closed {
			return 0, netip.AddrPort{}, c.opErr("read", net.ErrClosed, c.remoteOrNil())
		}
		if !c.rdl.IsZero() && c.rdl.UnixNano() <= nowNano() {
			return 0, netip.AddrPort{}, c.opErr("read", os.ErrDeadlineExceeded, c.remoteOrNil())
		}
		if w.ReadErr != nil {
			if err := w.ReadErr(c); err != nil {
				rt.Stat("fault.read_error")
				return 0, netip.AddrPort{}, c.opErr("read", err, c.remoteOrNil())
			}
		}
		if c.dead != nil {
			return 0, netip.AddrPort{}, c.opErr("read", c.dead, c.remoteOrNil())
		}
		if c.pending != nil {
			err := c.pending
			c.pending = nil
			if w.OnPending != nil {
				w.OnPending(c, err, false)
			}
			return 0, netip.AddrPort{}, c.opErr("read", err, c.remoteOrNil())
		}
		if len(c.q) > 0 {
			p := c.q[0]
			c.q = c.q[1:]
			c.Reads++
			n := copy(b, p.Data)
			if len(c.q) > 0 {
				c.rd.WakeOne()
			}
			return n, p.Src, nil
		}
		dl := int64(0)
		if !c.rdl.IsZero() {
			dl = c.rdl.UnixNano() - Base.UnixNano()
		}
		c.rd.Wait("read", dl)
	}
}

func (c *UDPConn) Read(b []byte) (int, error) {
	n, _, err := c.recv(b)
	return n, err
}

func (c *UDPConn) ReadFrom(b []byte) (int, net.Addr, error) {
	n, a, err := c.recv(b)
	if err != nil {
		return n, nil, err
	}
	return n, toUDP(a), err
}

func (c *UDPConn) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	n, a, err := c.recv(b)
	if err != nil {
		return n, nil, err
	}
	return n, toUDP(a), err
}

func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) { return c.recv(b) }

func (c *UDPConn) ReadMsgUDP(b, oob []byte) (n, oobn, flags int, addr *net.UDPAddr, err error) {
	n, a, err := c.recv(b)
	if err == nil {
		addr = toUDP(a)
	}
	return
}

func (c *UDPConn) write(b []byte, dst netip.AddrPort) (int, error) {
	rt.Point("write")
	n, err := c.write0(b, dst)
	if f := c.host.W.OnWrite; f != nil {
		f(c, dst, b, err)
	}
	return n, err
}

func (c *UDPConn) write0(b []byte, dst netip.AddrPort) (int, error) {
	if c.closed {
		return 0, c.opErr("write", net.ErrClosed, toUDP(dst))
	}
	if !c.wdl.IsZero() && c.wdl.UnixNano() <= nowNano() {
		return 0, c.opErr("write", os.ErrDeadlineExceeded, toUDP(dst))
	}
	w := c.host.W
	if w.WriteErr != nil {
		if err := w.WriteErr(c, b); err != nil {
			rt.Stat("fault.write_error")
			rt.Note("werr", int(c.laddr.Port()), 0, func() string { return err.Error() + " for " + Head(b) })
			return 0, c.opErr("write", err, toUDP(dst))
		}
	}
	if c.pending != nil {
		err := c.pending
		c.pending = nil
		if w.OnPending != nil {
			w.OnPending(c, err, true)
		}
		rt.Stat("fault.icmp_on_write")
		rt.Note("werr", int(c.laddr.Port()), 1, func() string { return err.Error() + " for " + Head(b) })
		return 0, c.opErr("write", err, toUDP(dst))
	}
	if dst.Port() == 0 {
		return 0, c.opErr("write", os.NewSyscallError("sendto", syscall.EINVAL), toUDP(dst))
	}
	if len(b) > 65507 {
		return 0, c.opErr("write", os.NewSyscallError("sendto", syscall.EMSGSIZE), toUDP(dst))
	}
	if !c.wild && c.laddr.Addr().Is4() != dst.Addr().Unmap().Is4() {
		return 0, c.opErr("write", &net.AddrError{Err: "non-IPv4 address", Addr: dst.Addr().String()}, toUDP(dst))
	}
	src := c.laddr
	if c.wild {
		a := c.host.sourceFor(dst.Addr())
		if !a.IsValid() {
			return 0, c.opErr("write", os.NewSyscallError("sendto", syscall.ENETUNREACH), toUDP(dst))
		}
		src = netip.AddrPortFrom(a, src.Port())
	}
	d := dst.Addr().Unmap()
	if d.IsUnspecified() {
		d = c.host.sourceFor(d)
	}
	w.Transmit(&Packet{Src: src, Dst: netip.AddrPortFrom(d, dst.Port()), Data: append([]byte(nil), b...)})
	return len(b), nil
}

func (c *UDPConn) Write(b []byte) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	if !c.raddr.IsValid() {
		return 0, c.opErr("write", os.NewSyscallError("write", syscall.EDESTADDRREQ), nil)
	}
	return c.write(b, c.raddr)
}

func (c *UDPConn) WriteTo(b []byte, addr net.Addr) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	a, ok := addr.(*net.UDPAddr)
	if !ok {
		return 0, c.opErr("write", syscall.EINVAL, addr)
	}
	return c.WriteToUDP(b, a)
}

func (c *UDPConn) WriteToUDP(b []byte, addr *net.UDPAddr) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	if addr == nil {
		return 0, c.opErr("write", errors.New("missing address"), nil)
	}
	if c.raddr.IsValid() {
		return 0, c.opErr("write", net.ErrWriteToConnected, addr)
	}
	dst, ok := fromUDP(addr)
	if !ok {
		return 0, c.opErr("write", &net.AddrError{Err: "invalid IP address", Addr: addr.IP.String()}, addr)
	}
	return c.write(b, dst)
}

func (c *UDPConn) WriteToUDPAddrPort(b []byte, addr netip.AddrPort) (int, error) {
	return c.WriteToUDP(b, toUDP(addr))
}

func (c *UDPConn) WriteMsgUDP(b, oob []byte, addr *net.UDPAddr) (n, oobn int, err error) {
	if addr == nil {
		n, err = c.Write(b)
	} else {
		n, err = c.WriteToUDP(b, addr)
	}
	return
}

func (c *UDPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if c == nil {
		return syscall.EINVAL
	}
	if c.closed {
		return c.opErr("set", net.ErrClosed, nil)
	}
	c.rdl = t
	c.rd.WakeAll()
	return nil
}

func (c *UDPConn) SetWriteDeadline(t time.Time) error {
	if c == nil {
		return syscall.EINVAL
	}
	if c.closed {
		return c.opErr("set", net.ErrClosed, nil)
	}
	c.wdl = t
	return nil
}

func (c *UDPConn) SetReadBuffer(int) error  { return nil }
func (c *UDPConn) SetWriteBuffer(int) error { return nil }
func (c *UDPConn) File() (*os.File, error)  { return nil, syscall.EINVAL }

// Base is the wall clock at virtual time zero.
var Base = time.Date(2021, 3, 14, 15, 9, 26, 0, time.UTC)

func nowNano() int64 { return Base.UnixNano() + rt.Now() }

// Naming.

func lookup(host string) ([]netip.Addr, error) {
	w := W()
	if w.DNSDelay > 0 {
		rt.Sleep(time.Duration(1 + rt.Choose(rt.NET, int(w.DNSDelay))))
	}
	rt.Point("dns")
	rt.Stat("net.dns")
	key := strings.ToLower(strings.TrimSuffix(host, "."))
	if w.LookupErr != nil {
		if err := w.LookupErr(key); err != nil {
			return nil, err
		}
	}
	if err := w.DNSErr[key]; err != nil {
		rt.Stat("fault.dns_error")
		return nil, err
	}
	if a := w.DNS[key]; len(a) > 0 {
		return a, nil
	}
	rt.Stat("fault.dns_nxdomain")
	return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
}

func LookupSRV(service, proto, name string) (string, []*net.SRV, error) {
	w := W()
	if w.DNSDelay > 0 {
		rt.Sleep(time.Duration(1 + rt.Choose(rt.NET, int(w.DNSDelay))))
	}
	rt.Point("dns")
	rt.Stat("net.dns_srv")
	target := name
	if service != "" || proto != "" {
		target = "_" + service + "._" + proto + "." + name
	}
	key := strings.ToLower(strings.TrimSuffix(target, "."))
	if err := w.DNSErr[key]; err != nil {
		rt.Stat("fault.dns_error")
		return "", nil, err
	}
	if l := w.SRVs[key]; len(l) > 0 {
		var r []*net.SRV
		for _, s := range l {
			c := *s
			r = append(r, &c)
		}
		return target + ".", r, nil
	}
	return "", nil, &net.DNSError{Err: "no such host", Name: target, IsNotFound: true}
}

func LookupHost(host string) ([]string, error) {
	if ip := net.ParseIP(host); ip != nil {
		return []string{host}, nil
	}
	a, err := lookup(host)
	if err != nil {
		return nil, err
	}
	var r []string
	for _, x := range a {
		r = append(r, x.String())
	}
	return r, nil
}

func LookupIP(host string) ([]net.IP, error) {
	if ip := net.ParseIP(host); ip != nil {
		return []net.IP{ip}, nil
	}
	a, err := lookup(host)
	if err != nil {
		return nil, err
	}
	var r []net.IP
	for _, x := range a {
		r = append(r, toUDP(netip.AddrPortFrom(x, 1)).IP)
	}
	return r, nil
}

func ResolveIPAddr(network, address string) (*net.IPAddr, error) {
	ips, err := LookupIP(address)
	if err != nil {
		return nil, err
	}
	return &net.IPAddr{IP: ips[0]}, nil
}

func ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	switch network {
	case "udp", "udp4", "udp6", "":
	default:
		return nil, net.UnknownNetworkError(network)
	}
	host, service, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, err := net.LookupPort("udp", service)
	if err != nil {
		return nil, err
	}
	if host == "" {
		return &net.UDPAddr{Port: port}, nil
	}
	if a, err := netip.ParseAddr(host); err == nil {
		return toUDP(netip.AddrPortFrom(a, uint16(port))), nil
	}
	addrs, err := lookup(host)
	if err != nil {
		return nil, err
	}
	best := addrs[0] // like the real one, prefer IPv4
	for _, a := range addrs {
		if a.Is4() {
			best = a
			break
		}
	}
	return toUDP(netip.AddrPortFrom(best, uint16(port))), nil
}

func Dial(network, address string) (net.Conn, error) {
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	c, err := DialUDP(network, nil, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

func DialUDP(network string, laddr, raddr *net.UDPAddr) (*UDPConn, error) {
	rt.Point("dial")
	h := cur()
	w := h.W
	rt.Stat("net.dial")
	if raddr == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("missing address")}
	}
	r, ok := fromUDP(raddr)
	if !ok {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: raddr, Err: syscall.EINVAL}
	}
	if r.Addr().IsUnspecified() {
		r = netip.AddrPortFrom(h.IPs[0], r.Port())
	}
	if w.DialErr != nil {
		if err := w.DialErr(h, r.String()); err != nil {
			rt.Stat("fault.dial_error")
			return nil, &net.OpError{Op: "dial", Net: network, Addr: raddr, Err: err}
		}
	}
	src := h.sourceFor(r.Addr())
	if !src.IsValid() {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: raddr, Err: os.NewSyscallError("connect", syscall.ENETUNREACH)}
	}
	var lp uint16
	if laddr != nil {
		lp = uint16(laddr.Port)
		if l, ok := fromUDP(laddr); ok && !l.Addr().IsUnspecified() {
			src = l.Addr()
		}
	}
	c, err := h.open(network, netip.AddrPortFrom(src, lp), false)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: raddr, Err: err}
	}
	c.raddr = r
	rt.Note("dial", int(c.laddr.Port()), int(r.Port()), func() string { return c.laddr.String() + " => " + r.String() })
	return c, nil
}

func ListenPacket(network, address string) (net.PacketConn, error) {
	c, err := listen(network, address)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func ListenUDP(network string, laddr *net.UDPAddr) (*UDPConn, error) {
	if laddr == nil {
		laddr = &net.UDPAddr{}
	}
	return listen(network, laddr.String())
}

func listen(network, address string) (*UDPConn, error) {
	rt.Point("listen")
	h := cur()
	w := h.W
	rt.Stat("net.listen")
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		if w.BindTry != nil {
			w.BindTry(h, address, err)
		}
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	mk := func(err error) error {
		if w.BindTry != nil {
			w.BindTry(h, address, err)
		}
		return &net.OpError{Op: "listen", Net: network, Addr: a, Err: err}
	}
	if w.BindErr != nil {
		if err := w.BindErr(h, address); err != nil {
			rt.Stat("fault.bind_error")
			return nil, mk(err)
		}
	}
	var ip netip.Addr
	wild := false
	if len(a.IP) == 0 {
		wild = true
		ip = netip.IPv6Unspecified()
		if network == "udp4" {
			ip = netip.IPv4Unspecified()
		}
	} else {
		x, _ := netip.AddrFromSlice(a.IP)
		ip = x.Unmap()
		if ip.IsUnspecified() {
			wild = true
		} else if w.HostOf(ip) != h {
			return nil, mk(os.NewSyscallError("bind", syscall.EADDRNOTAVAIL))
		}
	}
	c, err := h.open(network, netip.AddrPortFrom(ip, uint16(a.Port)), wild)
	if err != nil {
		rt.Stat("fault.bind_in_use")
		return nil, mk(err)
	}
	if w.BindTry != nil {
		w.BindTry(h, address, nil)
	}
	rt.Note("listen", int(c.laddr.Port()), 0, func() string { return c.laddr.String() })
	return c, nil
}

// Dialer and friends, for code that prefers them.

type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Resolver      *Resolver
	Cancel        <-chan struct{}
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	la, _ := d.LocalAddr.(*net.UDPAddr)
	c, err := DialUDP(network, la, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	return d.Dial(network, address)
}

type ListenConfig struct {
	KeepAlive time.Duration
	Control   func(network, address string, c syscall.RawConn) error
}

func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (net.PacketConn, error) {
	return ListenPacket(network, address)
}

type Resolver struct {
	PreferGo     bool
	StrictErrors bool
	Dial         func(ctx context.Context, network, address string) (net.Conn, error)
}

var DefaultResolver = &Resolver{}

func (r *Resolver) LookupSRV(ctx context.Context, service, proto, name string) (string, []*net.SRV, error) {
	return LookupSRV(service, proto, name)
}
func (r *Resolver) LookupHost(ctx context.Context, host string) ([]string, error) {
	return LookupHost(host)
}
func (r *Resolver) LookupIP(ctx context.Context, network, host string) ([]net.IP, error) {
	return LookupIP(host)
}
func (r *Resolver) LookupIPAddr(ctx context.Context, host string) ([]net.IPAddr, error) {
	ips, err := LookupIP(host)
	var l []net.IPAddr
	for _, ip := range ips {
		l = append(l, net.IPAddr{IP: ip})
	}
	return l, err
}

// OpenSocks lists open system sockets owned by the group.
func (w *World) OpenSocks(owner string) []*UDPConn {
	var r []*UDPConn
	names := append([]string(nil), w.names...)
	sort.Strings(names)
	for _, n := range names {
		for _, s := range w.byName[n].Socks {
			if s.Handler == nil && s.Owner == owner {
				r = append(r, s)
			}
		}
	}
	return r
}

func notFound(name string) error {
	return &net.DNSError{Err: "no such host", Name: name, IsNotFound: true}
}

func LookupAddr(addr string) ([]string, error) { return nil, notFound(addr) }
func LookupTXT(name string) ([]string, error)  { return nil, notFound(name) }
func LookupNS(name string) ([]*net.NS, error)  { return nil, notFound(name) }
func LookupMX(name string) ([]*net.MX, error)  { return nil, notFound(name) }
func LookupCNAME(name string) (string, error) {
	if _, err := LookupHost(name); err != nil {
		return "", err
	}
	return strings.TrimSuffix(name, ".") + ".", nil
}

func InterfaceAddrs() ([]net.Addr, error) {
	var r []net.Addr
	for _, ip := range cur().IPs {
		r = append(r, &net.IPNet{IP: net.IP(ip.AsSlice()), Mask: net.CIDRMask(ip.BitLen(), ip.BitLen())})
	}
	return r, nil
}

func (c *UDPConn) SyscallConn() (syscall.RawConn, error) { return nil, syscall.EINVAL }
