//go:build go1.25

package kern

import (
	"fmt"
	"syscall"
	"time"
)

// Net is the network: HTTP origins and TCP hosts.
type Net struct {
	k        *Kernel
	Resp     map[string]*Resource // by URL
	Requests map[string]int       // by URL: requests received
	Served   map[string]int       // by URL: bodies delivered to the end
	Hosts    map[string]*Host     // by host:port
	HTTPOpen int                  // response bodies that are open
	conns    []*Conn
	nconn    int
}

// Resource is what an origin serves at one URL.
type Resource struct {
	Status    int
	Body      []byte
	NoLength  bool          // no Content-Length: an early end of the body looks like a regular one
	FirstByte time.Duration // delay before the response header
	Chunk     int           // bytes per read (0: natural)
	// Seq, if set, gives successive responses; the last one repeats.
	Seq []*Resource
}

// Host is a TCP peer.
type Host struct {
	Mode   string // "serve", "refuse", "blackhole", "silent" (accepts, never answers)
	Accept func(c *Conn)
	Delay  time.Duration // connection establishment
	From   time.Duration // connections are refused before this time
	Conns  int
}

func newNet(k *Kernel) *Net {
	return &Net{k: k, Resp: map[string]*Resource{}, Requests: map[string]int{}, Served: map[string]int{}, Hosts: map[string]*Host{}}
}

// HTTPBody is an open response body.
type HTTPBody struct {
	p      *Proc
	url    string
	r      *Resource
	off    int
	end    int
	closed bool
	Len    int64
}

var httpFaults = []string{"http.refused", "http.dns", "http.reset", "http.503", "http.404", "http.200html"}

// HTTP performs a request. A nil body comes with a transport error.
func (p *Proc) HTTP(method, url string) (status int, body *HTTPBody, length int64, err error) {
	k := p.K
	var r *Resource
	var ready time.Time
	p.Op("http", url, httpFaults, nil, func(fault string) string {
		k.Net.Requests[url]++
		switch fault {
		case "http.refused":
			err = syscall.ECONNREFUSED
			return "refused"
		case "http.dns":
			err = fmt.Errorf("dial tcp: lookup: no such host")
			return "dns"
		case "http.reset":
			err = syscall.ECONNRESET
			return "reset"
		case "http.503":
			r = &Resource{Status: 503, Body: []byte("service unavailable\n")}
		case "http.404":
			r = &Resource{Status: 404, Body: []byte("not found\n")}
		case "http.200html":
			r = &Resource{Status: 200, Body: []byte("<html>captive portal</html>\n")}
		default:
			r = k.Net.Resp[url]
			if r != nil && len(r.Seq) > 0 {
				i := k.Net.Requests[url] - 1
				if i >= len(r.Seq) {
					i = len(r.Seq) - 1
				}
				r = r.Seq[i]
			}
		}
		if r == nil {
			r = &Resource{Status: 404, Body: []byte("not found\n")}
		}
		if r.Status == 0 {
			err = syscall.ECONNREFUSED
			return "refused"
		}
		ready = time.Now().Add(r.FirstByte)
		return fmt.Sprint(r.Status)
	})
	if err != nil {
		return
	}
	if r.FirstByte > 0 {
		p.K.bgAt(ready)
		p.Op("httpwait", url, nil, func() bool { return !time.Now().Before(ready) }, func(string) string { return "" })
	}
	length = int64(len(r.Body))
	if r.NoLength {
		length = -1
	}
	k.Net.HTTPOpen++
	return r.Status, &HTTPBody{p: p, url: url, r: r, end: len(r.Body), Len: length}, length, nil
}

// Read reads from the body. Errors: ECONNRESET, or "early" true when the connection ended before Content-Length.
func (b *HTTPBody) Read(buf []byte) (n int, eof, early bool, errno syscall.Errno) {
	if len(buf) == 0 {
		return
	}
	k := b.p.K
	var until time.Time
	kinds := []string{"http.midreset", "http.short", "http.stall"}
	g := b.p.gstate(rtID())
	skey := fmt.Sprintf("stall/%s/%d/%d", b.p.Label, g.idx, g.n)
	stall := func() {
		d := []time.Duration{2 * time.Second, 8 * time.Second, 12 * time.Second, 60 * time.Second}[k.ChooseUniform(skey, 4)]
		until = time.Now().Add(d)
		k.bgAt(until)
	}
	b.p.Op("httpread", b.url, kinds, nil, func(fault string) string {
		switch fault {
		case "http.midreset":
			errno = syscall.ECONNRESET
			return "reset"
		case "http.short":
			b.end = b.off
		case "http.stall":
			stall()
		}
		n = copy(buf, b.r.Body[b.off:b.end])
		if c := b.r.Chunk; c > 0 && n > c {
			n = c
		}
		b.off += n
		if n == 0 {
			if b.end < len(b.r.Body) && !b.r.NoLength {
				early = true
				return "early end"
			}
			eof = true
			if b.off == len(b.r.Body) {
				k.Net.Served[b.url]++
			}
			return "eof"
		}
		return itoa(n)
	})
	if !until.IsZero() {
		b.p.Op("httpwait", b.url, nil, func() bool { return !time.Now().Before(until) }, func(string) string { return "" })
	}
	return
}

// Close closes the body.
func (b *HTTPBody) Close() {
	if !b.closed {
		b.closed = true
		b.p.K.Net.HTTPOpen--
	}
}

// bgAt makes the scheduler look again at time t without keeping the run alive.
func (k *Kernel) bgAt(t time.Time) {
	k.events = append(k.events, &scripted{at: t, f: func() {}, bg: true})
	k.signal()
}

// Conn is one side of a TCP connection.
type Conn struct {
	k      *Kernel
	P      *Proc
	ID     int
	Side   string // "client", "server"
	Peer   *Conn
	Addr   string
	inbuf  []byte
	eof    bool // peer closed its side
	reset  bool
	closed bool
	stuck  bool // nothing sent on this side arrives any more
	last   time.Time
	rd, wd time.Time
	wn     int
	seq    int
}

// Pair creates the two ends of a connection.
func (n *Net) pair(client *Proc, addr string) (*Conn, *Conn) {
	n.nconn++
	a := &Conn{k: n.k, P: client, ID: n.nconn, Side: "client", Addr: addr}
	b := &Conn{k: n.k, ID: n.nconn, Side: "server", Addr: addr, Peer: a}
	a.Peer = b
	n.conns = append(n.conns, a, b)
	return a, b
}

func (n *Net) closeProc(p *Proc) {
	for _, c := range n.conns {
		if c.P == p && !c.closed {
			c.shut()
		}
	}
}

func (c *Conn) shut() {
	if c.closed {
		return
	}
	c.closed = true
	peer := c.Peer
	if c.stuck {
		return
	}
	c.deliver(func() { peer.eof = true }, 0)
}

// deliver runs f in scheduler context after the delay, in order with earlier deliveries.
func (c *Conn) deliver(f func(), d time.Duration) {
	at := time.Now().Add(d)
	if at.Before(c.last) {
		at = c.last
	}
	c.last = at
	c.seq++
	c.k.events = append(c.k.events, &scripted{at: at, f: f, bg: true, seq: c.seq, conn: c})
	c.k.signal()
}

// OpenConns counts connections a process has open.
func (n *Net) OpenConns(p *Proc) int {
	t := 0
	for _, c := range n.conns {
		if c.P == p && !c.closed {
			t++
		}
	}
	return t
}

// Dial connects to a host. deadline may be zero.
func (p *Proc) Dial(addr string, deadline time.Time, cancelled func() bool) (c *Conn, timeout bool, errno syscall.Errno) {
	k := p.K
	h := k.Net.Hosts[addr]
	var at time.Time
	p.Op("connect", addr, []string{"net.refused", "net.unreach"}, nil, func(fault string) string {
		switch {
		case fault == "net.refused":
			errno = syscall.ECONNREFUSED
		case fault == "net.unreach":
			errno = syscall.ENETUNREACH
		case h == nil || h.Mode == "refuse" || k.Now() < h.From:
			errno = syscall.ECONNREFUSED
		case h.Mode == "blackhole":
			at = time.Now().Add(130 * time.Second)
			errno = syscall.ETIMEDOUT
		default:
			at = time.Now().Add(h.Delay)
		}
		return res(errno)
	})
	if at.IsZero() && errno != 0 {
		return
	}
	if !deadline.IsZero() && deadline.Before(at) {
		k.bgAt(deadline)
	}
	k.bgAt(at)
	p.Op("connwait", addr, nil, func() bool {
		now := time.Now()
		return !now.Before(at) || !deadline.IsZero() && !now.Before(deadline) || cancelled != nil && cancelled()
	}, func(string) string {
		now := time.Now()
		if cancelled != nil && cancelled() || !deadline.IsZero() && !now.Before(deadline) && now.Before(at) {
			timeout = true
			return "timeout"
		}
		if errno != 0 {
			return res(errno)
		}
		var srv *Conn
		c, srv = k.Net.pair(p, addr)
		h.Conns++
		if h.Accept != nil && h.Mode == "serve" {
			h.Accept(srv)
		}
		return fmt.Sprintf("conn %d", c.ID)
	})
	return
}

// NetErr is the outcome of a connection operation.
type NetErr int

// Outcomes.
const (
	NetOK NetErr = iota
	NetEOF
	NetReset
	NetTimeout
	NetClosed
)

// Read reads received bytes.
func (c *Conn) Read(p *Proc, b []byte) (n int, e NetErr) {
	if len(b) == 0 {
		return
	}
	expired := func() bool { return !c.rd.IsZero() && !time.Now().Before(c.rd) }
	var kinds []string
	if c.Side == "client" {
		kinds = []string{"net.reset"}
	}
	p.Op("recv", c.name(), kinds, func() bool { return len(c.inbuf) > 0 || c.eof || c.reset || c.closed || expired() }, func(fault string) string {
		if fault == "net.reset" {
			c.reset = true
			peer := c.Peer
			c.deliver(func() { peer.reset = true }, 0)
		}
		switch {
		case c.closed:
			e = NetClosed
			return "closed"
		case c.reset:
			e = NetReset
			return "reset"
		case len(c.inbuf) > 0:
			n = copy(b, c.inbuf)
			c.inbuf = c.inbuf[n:]
			return itoa(n)
		case c.eof:
			e = NetEOF
			return "eof"
		default:
			e = NetTimeout
			return "timeout"
		}
	})
	return
}

func (c *Conn) name() string { return fmt.Sprintf("%s#%d", c.Side, c.ID) }

var netDelays = []time.Duration{time.Millisecond, 20 * time.Millisecond, 300 * time.Millisecond, 2 * time.Second}

// Write sends bytes: they are fragmented and delivered in order, with delays of the simulator's choosing.
func (c *Conn) Write(p *Proc, b []byte) (n int, e NetErr) {
	var kinds []string
	if c.Side == "client" {
		kinds = []string{"net.reset", "net.stall"}
	}
	p.Op("send", fmt.Sprintf("%s %d", c.name(), len(b)), kinds, nil, func(fault string) string {
		peer := c.Peer
		if c.closed {
			e = NetClosed
			return "closed"
		}
		if fault == "net.reset" {
			c.reset = true
			c.deliver(func() { peer.reset = true }, 0)
		}
		if fault == "net.stall" {
			c.stuck = true
			peer.stuck = true
		}
		if c.reset || peer.closed && !peer.stuck {
			e = NetReset
			return "reset"
		}
		n = len(b)
		c.wn++
		data := append([]byte(nil), b...)
		if c.stuck {
			return "lost"
		}
		pre := fmt.Sprintf("net/%s/%d", c.name(), c.wn)
		parts := [][]byte{data}
		if len(data) > 1 {
			if cut := c.k.Choose(pre+"/cut", len(data), 0.15); cut > 0 {
				parts = [][]byte{data[:cut], data[cut:]}
			}
		}
		for i, part := range parts {
			part := part
			d := time.Duration(0)
			if x := c.k.Choose(fmt.Sprintf("%s/lat%d", pre, i), len(netDelays)+1, c.k.Cfg.NetDelayP); x > 0 {
				d = netDelays[x-1]
			}
			c.deliver(func() { peer.inbuf = append(peer.inbuf, part...) }, d)
		}
		return itoa(n)
	})
	return
}

// Stall makes everything sent on either side disappear (scheduler context).
func (c *Conn) Stall() { c.stuck = true; c.Peer.stuck = true }

// Reset breaks the connection (scheduler context).
func (c *Conn) Reset() { c.reset = true; c.Peer.reset = true }

// Break breaks the connection; it may be called by the process at its server side.
func (c *Conn) Break() {
	c.P.Op("break", c.name(), nil, nil, func(string) string {
		c.Reset()
		return ""
	})
}

// SetDeadlines sets the read and write deadlines.
func (c *Conn) SetDeadlines(t time.Time, read, write bool) {
	if read {
		c.rd = t
		if !t.IsZero() {
			c.k.bgAt(t)
		} else {
			c.k.signal()
		}
	}
	if write {
		c.wd = t
	}
}

// Close closes this side.
func (c *Conn) Close(p *Proc) {
	p.Op("shutdown", c.name(), nil, nil, func(string) string {
		c.shut()
		return ""
	})
}
