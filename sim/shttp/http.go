//go:build go1.25

// Package shttp is package net/http whose default transport reaches the simulated origins.
package shttp

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"syscall"

	"verif.local/sim/kern"
)

func init() {
	http.DefaultTransport = transport{}
	http.DefaultClient.Transport = transport{}
}

type transport struct{}

// DefaultTransport is the simulated transport.
var DefaultTransport http.RoundTripper = transport{}

// DefaultClient uses it.
var DefaultClient = http.DefaultClient

// Transport ignores its settings and reaches the simulated origins.
type Transport struct{ http.Transport }

func (t *Transport) RoundTrip(r *http.Request) (*http.Response, error) {
	return transport{}.RoundTrip(r)
}

// Clone is as in net/http.
func (t *Transport) Clone() *Transport { return &Transport{} }

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	p := kern.Current()
	if r.Body != nil {
		r.Body.Close()
	}
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	status, body, length, err := p.HTTP(r.Method, r.URL.String())
	if err != nil {
		if e, ok := err.(syscall.Errno); ok {
			err = &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", e)}
		}
		return nil, err
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: &respBody{b: body, r: r}, ContentLength: length, Request: r,
	}, nil
}

type respBody struct {
	b   *kern.HTTPBody
	r   *http.Request
	err error
}

func (b *respBody) Read(buf []byte) (int, error) {
	if b.err != nil {
		return 0, b.err
	}
	if err := b.r.Context().Err(); err != nil {
		return 0, err
	}
	n, eof, early, e := b.b.Read(buf)
	switch {
	case e != 0:
		b.err = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", e)}
	case early:
		b.err = io.ErrUnexpectedEOF
	case eof:
		b.err = io.EOF
	}
	return n, b.err
}

func (b *respBody) Close() error {
	b.b.Close()
	return nil
}

func Get(u string) (*http.Response, error)  { return DefaultClient.Get(u) }
func Head(u string) (*http.Response, error) { return DefaultClient.Head(u) }
func Post(u, contentType string, body io.Reader) (*http.Response, error) {
	return DefaultClient.Post(u, contentType, body)
}
func PostForm(u string, data url.Values) (*http.Response, error) {
	return DefaultClient.PostForm(u, data)
}
