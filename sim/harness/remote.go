//go:build go1.25

package harness

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	"verif.local/sim/kern"
	"verif.local/sim/snet"
)

// GAct is one step of what the server does in a call.
type GAct struct {
	Op   string // recv, recvall, send, sleep, status, stall, reset, trailer, header
	Val  string
	N    int64
	D    time.Duration
	Code codes.Code
	Raw  []byte // sendraw: the encoded message
}

func (a GAct) String() string {
	switch a.Op {
	case "send":
		return fmt.Sprintf("send(%s,%d)", a.Val, a.N)
	case "sleep":
		return "sleep(" + a.D.String() + ")"
	case "status":
		return fmt.Sprintf("status(%s %s)", a.Code, a.Val)
	}
	return a.Op
}

// GCall is what the server saw of one call.
type GCall struct {
	Method  string
	Headers metadata.MD
	Got     []string // received messages as "value/n"
	GotEOF  bool     // the client closed its side
	Sent    []string
	Status  codes.Code
	Ended   bool
	At      time.Duration
}

// GServer is a gRPC server on a remote host.
type GServer struct {
	S      *Sim
	Addr   string
	Calls  []*GCall
	Script func(method string, call int) []GAct
	P      *kern.Proc
	Conns  []*kern.Conn
}

type rawCodec struct{}

func (rawCodec) Marshal(v interface{}) ([]byte, error) { return v.(*rawMsg).b, nil }
func (rawCodec) Unmarshal(data []byte, v interface{}) error {
	v.(*rawMsg).b = append([]byte(nil), data...)
	return nil
}
func (rawCodec) String() string { return "proto" }

type rawMsg struct{ b []byte }

func encMsg(value string, n int64) []byte {
	var b []byte
	if value != "" {
		b = append(b, 0x0a)
		b = binary.AppendUvarint(b, uint64(len(value)))
		b = append(b, value...)
	}
	if n != 0 {
		b = append(b, 0x10)
		b = binary.AppendUvarint(b, uint64(n))
	}
	return b
}

func decMsg(b []byte) string {
	value, n := "", uint64(0)
	for len(b) > 0 {
		switch b[0] {
		case 0x0a:
			l, k := binary.Uvarint(b[1:])
			if k <= 0 || int(l)+1+k > len(b) {
				return "?bad"
			}
			value = string(b[1+k : 1+k+int(l)])
			b = b[1+k+int(l):]
		case 0x10:
			v, k := binary.Uvarint(b[1:])
			if k <= 0 {
				return "?bad"
			}
			n = v
			b = b[1+k:]
		default:
			return "?bad"
		}
	}
	return fmt.Sprintf("%s/%d", value, int64(n))
}

type simListener struct {
	ch   chan net.Conn
	addr string
}

func (l *simListener) Accept() (net.Conn, error) {
	c, ok := <-l.ch
	if !ok {
		return nil, errors.New("closed")
	}
	return c, nil
}
func (l *simListener) Close() error   { return nil }
func (l *simListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }

// GRPC starts a server.
func (s *Sim) GRPC(addr string, script func(method string, call int) []GAct, opts ...grpc.ServerOption) *GServer {
	g := &GServer{S: s, Addr: addr, Script: script}
	l := &simListener{ch: make(chan net.Conn, 64), addr: addr}
	var srv *kern.Proc
	h := &kern.Host{Mode: "serve"}
	h.Accept = func(c *kern.Conn) {
		c.P = srv
		g.Conns = append(g.Conns, c)
		l.ch <- snet.Wrap(c)
	}
	s.K.Net.Hosts[addr] = h
	srv = s.K.Spawn("server", "remote", nil, []string{"server"}, nil, "/", [3]*kern.FD{}, func(p *kern.Proc) int {
		gs := grpc.NewServer(append(opts, grpc.CustomCodec(rawCodec{}), grpc.UnknownServiceHandler(func(_ interface{}, st grpc.ServerStream) error {
			return g.serve(st)
		}))...)
		_ = gs.Serve(l)
		return 0
	})
	g.P = srv
	return g
}

func (g *GServer) serve(st grpc.ServerStream) error {
	m, _ := grpc.MethodFromServerStream(st)
	md, _ := metadata.FromIncomingContext(st.Context())
	call := &GCall{Method: m, Headers: md, At: g.S.K.Now()}
	g.Calls = append(g.Calls, call)
	end := func(c codes.Code, msg string) error {
		call.Status, call.Ended = c, true
		if c == codes.OK {
			return nil
		}
		return status.Error(c, msg)
	}
	recv := func() bool {
		var in rawMsg
		err := st.RecvMsg(&in)
		if err == io.EOF {
			call.GotEOF = true
			return false
		}
		if err != nil {
			return false
		}
		call.Got = append(call.Got, decMsg(in.b))
		return true
	}
	for _, a := range g.Script(m[strings.LastIndexByte(m, '/')+1:], len(g.Calls)-1) {
		switch a.Op {
		case "recv":
			if !call.GotEOF {
				recv()
			}
		case "recvall":
			for !call.GotEOF && recv() {
			}
		case "send":
			call.Sent = append(call.Sent, fmt.Sprintf("%s/%d", a.Val, a.N))
			if err := st.SendMsg(&rawMsg{encMsg(a.Val, a.N)}); err != nil {
				return end(codes.Aborted, err.Error())
			}
		case "sendraw":
			call.Sent = append(call.Sent, a.Val)
			if err := st.SendMsg(&rawMsg{a.Raw}); err != nil {
				return end(codes.Aborted, err.Error())
			}
		case "forever":
			for i := 0; ; i++ {
				call.Sent = append(call.Sent, a.Val)
				if err := st.SendMsg(&rawMsg{a.Raw}); err != nil {
					return end(codes.Aborted, err.Error())
				}
				time.Sleep(a.D)
				if st.Context().Err() != nil {
					return end(codes.Canceled, "gone")
				}
			}
		case "sendbad":
			call.Sent = append(call.Sent, "?bad")
			if err := st.SendMsg(&rawMsg{[]byte{0x0a, 0x7f, 0x01}}); err != nil {
				return end(codes.Aborted, err.Error())
			}
		case "header":
			_ = st.SetHeader(metadata.Pairs("h-"+a.Val, "x"))
		case "flush":
			_ = st.SendHeader(nil)
		case "trailer":
			st.SetTrailer(metadata.Pairs("t-"+a.Val, "y"))
		case "sleep":
			time.Sleep(a.D)
		case "stall":
			select {
			case <-st.Context().Done():
				return end(codes.Canceled, "gone")
			}
		case "reset":
			for _, c := range g.Conns {
				c.Break()
			}
		case "status":
			return end(a.Code, a.Val)
		}
	}
	return end(codes.OK, "")
}
