//go:build go1.25

// Package snet is package net on the simulated network.
package snet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"verif.local/sim/kern"
)

// Addr is a simulated address.
type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

// Conn wraps a simulated connection end for the current process.
type conn struct {
	c *kern.Conn
}

// Wrap makes a net.Conn.
func Wrap(c *kern.Conn) net.Conn { return &conn{c} }

func (c *conn) err(op string, e kern.NetErr) error {
	switch e {
	case kern.NetOK:
		return nil
	case kern.NetEOF:
		return io.EOF
	case kern.NetReset:
		return &net.OpError{Op: op, Net: "tcp", Err: os.NewSyscallError(op, syscall.ECONNRESET)}
	case kern.NetTimeout:
		return &net.OpError{Op: op, Net: "tcp", Err: os.ErrDeadlineExceeded}
	default:
		return &net.OpError{Op: op, Net: "tcp", Err: net.ErrClosed}
	}
}

func (c *conn) Read(b []byte) (int, error) {
	n, e := c.c.Read(kern.Current(), b)
	return n, c.err("read", e)
}

func (c *conn) Write(b []byte) (int, error) {
	n, e := c.c.Write(kern.Current(), b)
	return n, c.err("write", e)
}

func (c *conn) Close() error {
	c.c.Close(kern.Current())
	return nil
}

func (c *conn) LocalAddr() net.Addr                { return simAddr("127.0.0.1:40000") }
func (c *conn) RemoteAddr() net.Addr               { return simAddr(c.c.Addr) }
func (c *conn) SetDeadline(t time.Time) error      { c.c.SetDeadlines(t, true, true); return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { c.c.SetDeadlines(t, true, false); return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { c.c.SetDeadlines(t, false, true); return nil }

// Dialer is as in package net.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	var deadline time.Time
	min := func(t time.Time) {
		if !t.IsZero() && (deadline.IsZero() || t.Before(deadline)) {
			deadline = t
		}
	}
	if d.Timeout > 0 {
		min(time.Now().Add(d.Timeout))
	}
	min(d.Deadline)
	if t, ok := ctx.Deadline(); ok {
		min(t)
	}
	if ctx.Err() != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: simAddr(address), Err: ctx.Err()}
	}
	c, timeout, e := kern.Current().Dial(address, deadline, func() bool { return ctx.Err() != nil })
	var err error
	switch {
	case timeout && ctx.Err() == context.Canceled:
		err = errors.New("operation was canceled")
	case timeout:
		err = os.ErrDeadlineExceeded
	case e != 0:
		err = os.NewSyscallError("connect", e)
	}
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: simAddr(address), Err: err}
	}
	return &conn{c}, nil
}

func Dial(network, address string) (net.Conn, error) {
	return (&Dialer{}).Dial(network, address)
}

func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	return (&Dialer{Timeout: timeout}).Dial(network, address)
}

func Listen(network, address string) (net.Listener, error) {
	return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EACCES}
}

func LookupHost(host string) ([]string, error) { return []string{"127.0.0.1"}, nil }
func LookupIP(host string) ([]net.IP, error)   { return []net.IP{net.IPv4(127, 0, 0, 1)}, nil }
