//go:build go1.25

// Package ssignal is package os/signal on the simulated kernel.
package ssignal

import (
	"context"
	"os"
	"syscall"

	"verif.local/sim/kern"
)

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	p := kern.Current()
	var reg *kern.SigReg
	for _, r := range p.Sigs {
		if r.Key == interface{}(c) {
			reg = r
		}
	}
	if reg == nil {
		reg = &kern.SigReg{Key: c, Set: map[syscall.Signal]bool{}, Send: func(s syscall.Signal) {
			select {
			case c <- s:
			default:
			}
		}}
		p.Sigs = append(p.Sigs, reg)
	}
	if len(sigs) == 0 {
		reg.All = true
	}
	for _, s := range sigs {
		if x, ok := s.(syscall.Signal); ok {
			reg.Set[x] = true
			delete(p.Ignored, x)
		}
	}
}

func Stop(c chan<- os.Signal) {
	p := kern.Current()
	out := p.Sigs[:0]
	for _, r := range p.Sigs {
		if r.Key != interface{}(c) {
			out = append(out, r)
		}
	}
	p.Sigs = out
}

func Ignore(sigs ...os.Signal) {
	p := kern.Current()
	for _, s := range sigs {
		if x, ok := s.(syscall.Signal); ok {
			p.Ignored[x] = true
			for _, r := range p.Sigs {
				delete(r.Set, x)
			}
		}
	}
}

func Ignored(sig os.Signal) bool {
	x, ok := sig.(syscall.Signal)
	return ok && kern.Current().Ignored[x]
}

func Reset(sigs ...os.Signal) {
	p := kern.Current()
	if len(sigs) == 0 {
		p.Sigs = nil
		p.Ignored = map[syscall.Signal]bool{}
	}
	for _, s := range sigs {
		if x, ok := s.(syscall.Signal); ok {
			delete(p.Ignored, x)
			for _, r := range p.Sigs {
				delete(r.Set, x)
			}
		}
	}
}

func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sigs...)
	if ctx.Err() == nil {
		go func() {
			select {
			case <-c:
				cancel()
			case <-ctx.Done():
			}
		}()
	}
	return ctx, func() {
		cancel()
		Stop(c)
	}
}
