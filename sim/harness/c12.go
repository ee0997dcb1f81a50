//go:build go1.25

package harness

import (
	"fmt"
	"strings"
	"time"

	"google.golang.org/grpc/codes"

	"verif.local/sim/kern"
)

// dur is a timeout given on the command line, or its default.
func (c *Ctx) timeoutFlag(flag, def string, l *Load, values ...string) time.Duration {
	v := c.Pick(flag, append([]string{""}, values...)...)
	if v == "" {
		v = def
	} else if c.P(flag+"/eq", 0.5) {
		l.Args = append(l.Args, "--"+flag+"="+v)
	} else {
		l.Args = append(l.Args, "--"+flag, v)
	}
	d, err := time.ParseDuration(v)
	if err != nil {
		panic(err)
	}
	return d
}

// began tells when the command first tried to connect, and when it had a connection.
func began(s *Sim, r *Run) (dial, conn time.Duration, dialed, connected bool) {
	var prev time.Duration
	for _, e := range s.K.Log {
		if e.P != r.P {
			continue
		}
		if e.Kind == "connect" && !dialed {
			dial, dialed = prev, true
		}
		if e.Kind == "connwait" && strings.HasPrefix(e.Res, "conn") && !connected {
			conn, connected = e.T, true
		}
		prev = e.T
	}
	return
}

const slack = 50 * time.Millisecond

// quietNet has no delays but those that are part of the scenario.
func quietNet(cfg kern.Config) kern.Config {
	cfg = Quiet(cfg)
	cfg.LatencyP = 0
	cfg.NetDelayP = 0
	cfg.YieldP = 0
	cfg.Horizon = 3 * time.Hour
	return cfg
}

// ended checks that the command failed at the given time.
func (k *gcase) ended(s *Sim, r *Run, from, to time.Duration, why string) bool {
	c := k.c
	if !r.P.Exited() {
		c.Violate("C12.hangs", "%s: it never gave up: %s", why, r.Desc())
		return false
	}
	if r.OK() {
		c.Violate("C12.verdict", "%s: %s", why, r.Desc())
		return false
	}
	if r.P.Ended > to+slack {
		c.Violate("C12.late", "%s: it gave up at %s, not at %s: %s", why, r.P.Ended, to, r.Desc())
		return false
	}
	if r.P.Ended < from-slack {
		c.Violate("C12.early", "%s: it gave up at %s already, not at %s: %s", why, r.P.Ended, from, r.Desc())
		return false
	}
	return true
}

func init() {
	register("C12", "connect", 3, func(c *Ctx) {
		k := c.gcall()
		l := k.g.L
		ct := c.timeoutFlag("connect-timeout", "10s", l, "3s", "700ms", "25s", "45s", "110s", "19s", "61s", "1500ms", "12.4s", "1m30.7s")
		call := c.timeoutFlag("call-timeout", "60s", l, "2s", "300ms", "5m")
		k.input(0)
		if len(k.inputs) > 1 && !k.inStream() {
			return
		}
		k.acts = []GAct{{Op: "recvall"}, {Op: "sendraw", Val: "{\"flag\":true}", Raw: []byte{0x40, 1}}}
		k.finish()
		s := k.g.Machine("a", quietNet(c.Swarm("a")))
		h := s.K.Net.Hosts["srv:80"]
		mode := c.Pick("mode", "blackhole", "silent", "stuck", "slow", "slow", "refuse", "partway")
		why := "the host is a black hole"
		var delay time.Duration
		works := false
		switch mode {
		case "blackhole":
			h.Mode = "blackhole"
		case "silent":
			h.Mode = "silent"
			why = "the peer never says anything"
		case "stuck":
			accept := h.Accept
			h.Accept = func(x *kern.Conn) { accept(x); x.Stall() }
			why = "the connection is stuck from the beginning"
		case "partway":
			// the connection is slow to be made, and then nothing comes
			h.Mode = "silent"
			h.Delay = ct * time.Duration(1+c.N("part", 9)) / 10
			why = fmt.Sprintf("the peer accepts after %s and says nothing", h.Delay)
		case "slow":
			delay = ct * []time.Duration{1, 5, 9, 95, 99, 101, 105, 150, 1000}[c.N("slow", 9)]
			if f := c.N("slow", 9); f < 3 {
				delay /= 10
			} else {
				delay /= 100
			}
			h.Delay = delay
			works = delay < ct
			why = fmt.Sprintf("the connection takes %s", delay)
		case "refuse":
			h.Mode = "refuse"
			why = "the host refuses"
		}
		why = fmt.Sprintf("%s, connect timeout %s, call timeout %s", why, ct, call)
		c.Sample("%s", why)
		r := l.Start(s, RunOpts{Stdin: k.source()})
		s.Run()
		dial, _, dialed, _ := began(s, r)
		if !dialed {
			c.Violate("C12.early", "%s: it never tried to connect: %s", why, r.Desc())
			return
		}
		switch {
		case works:
			if !r.P.Exited() {
				c.Violate("C12.hangs", "%s: it never ended: %s", why, r.Desc())
			} else if k.src != nil && len(k.src.Delays) > 0 && call < 40*time.Second {
				return // the input is slower than the call may be
			} else if !r.OK() {
				c.Violate("C12.early", "%s: %s", why, r.Desc())
			} else {
				c.Hit("c12.slow_connect")
			}
		case mode == "refuse":
			if k.ended(s, r, dial, dial+ct, why) {
				c.Hit("c12.refused")
			}
		default:
			if k.ended(s, r, dial+ct, dial+ct, why) {
				c.Hit("c12.connect_timeout")
			}
		}
	})
	register("C12", "call", 4, func(c *Ctx) {
		k := c.gcall()
		l := k.g.L
		ct := c.timeoutFlag("connect-timeout", "10s", l, "3s", "30s", "1s", "2.5s")
		call := c.timeoutFlag("call-timeout", "60s", l, "2s", "700ms", "90s", "5m", "31s", "8s", "1900ms", "12.4s", "1m5.6s")
		k.input(0)
		if len(k.inputs) > 1 && !k.inStream() {
			return
		}
		send := GAct{Op: "sendraw", Val: "{\"flag\":true}", Raw: []byte{0x40, 1}}
		var acts []GAct
		if c.P("flush", 0.3) {
			acts = append(acts, GAct{Op: "flush"})
		}
		before := len(acts)
		acts = append(acts, GAct{Op: "recvall"}, send)
		if k.outStream() {
			for i, n := 0, c.N("outs", 4); i < n; i++ {
				acts = append(acts, send)
			}
		}
		what := c.Pick("what", "stall", "pause", "pauses", "stuck", "forever")
		at := before + c.N("at", len(acts)-before+1)
		add := func(at int, x GAct) {
			acts = append(acts[:at:at], append([]GAct{x}, acts[at:]...)...)
		}
		var total time.Duration
		why := ""
		dead := true
		stuckAt := time.Duration(-1)
		switch what {
		case "stall":
			add(at, GAct{Op: "stall"})
			why = fmt.Sprintf("the server stalls before action %d", at)
		case "pause":
			total = call * []time.Duration{10, 50, 90, 99, 102, 110, 200}[c.N("pause", 7)] / 100
			add(at, GAct{Op: "sleep", D: total})
			dead = total > call
			why = fmt.Sprintf("the server pauses for %s before action %d", total, at)
		case "pauses":
			n := 2 + c.N("npauses", 4)
			for i := 0; i < n; i++ {
				d := call * []time.Duration{10, 20, 30, 40}[c.N(fmt.Sprintf("p%d", i), 4)] / 101
				total += d
				add(before+c.N(fmt.Sprintf("pat%d", i), len(acts)-before+1), GAct{Op: "sleep", D: d})
			}
			dead = total > call
			why = fmt.Sprintf("the server pauses for %s altogether", total)
		case "stuck":
			stuckAt = call * time.Duration(c.N("stuckat", 10)) / 10
			add(at, GAct{Op: "sleep", D: call * 2})
			why = fmt.Sprintf("the connection is stuck %s after it was made", stuckAt)
		case "forever":
			if !k.outStream() {
				return
			}
			add(len(acts), GAct{Op: "forever", Val: "{\"flag\":true}", Raw: []byte{0x40, 1}, D: []time.Duration{time.Second, 70 * time.Millisecond, call / 7}[c.N("every", 3)]})
			why = "the server never stops sending"
		}
		k.acts = acts
		ka := c.Pick("keepalive", "", "", "", "10s", "30s")
		var more []string
		if ka != "" {
			more = append(more, "--keepalive-time", ka)
		}
		k.finish(more...)
		s := k.g.Machine("a", quietNet(c.Swarm("a")))
		if stuckAt >= 0 {
			h := s.K.Net.Hosts["srv:80"]
			accept := h.Accept
			h.Accept = func(x *kern.Conn) {
				accept(x)
				s.K.After(stuckAt+10*time.Millisecond, func() { x.Stall() })
			}
		}
		why = fmt.Sprintf("%s, connect timeout %s, call timeout %s", why, ct, call)
		c.Sample("%s", why)
		var src *kern.Source
		if k.stdin {
			src = &kern.Source{Data: []byte(k.text)}
			if c.P("open", 0.2) && dead {
				// the user does not close standard input
				src.NoEOF = true
				why += ", standard input stays open"
			}
		}
		r := l.Start(s, RunOpts{Stdin: src})
		s.Run()
		_, conn, _, connected := began(s, r)
		if !connected {
			c.Violate("C12.early", "%s: it never connected: %s", why, r.Desc())
			return
		}
		if !dead {
			if !r.P.Exited() {
				c.Violate("C12.hangs", "%s: it never ended: %s", why, r.Desc())
			} else if !r.OK() && ka == "" {
				c.Violate("C12.early", "%s: %s", why, r.Desc())
			} else if r.OK() {
				c.Hit("c12.slow_call")
			}
			return
		}
		from := conn + call
		if ka != "" {
			from = 0 // the probes may find out earlier
		}
		if k.ended(s, r, from, conn+call, why) {
			c.Hit("c12.call_timeout")
		}
	})
	register("C12", "idle", 2, func(c *Ctx) {
		// standard input is slower than the call may take, or is never closed
		k := c.gcall()
		l := k.g.L
		call := c.timeoutFlag("call-timeout", "60s", l, "2s", "700ms", "90s")
		k.input(0)
		if len(k.inputs) > 1 && !k.inStream() {
			return
		}
		k.stdin = true
		for i, a := range l.Args {
			if a == "--data" {
				l.Args = append(append(l.Args[:i:i], "--stdin"), l.Args[i+2:]...)
				break
			}
		}
		send := GAct{Op: "sendraw", Val: "{\"flag\":true}", Raw: []byte{0x40, 1}}
		k.acts = []GAct{{Op: "recvall"}, send}
		early := c.P("early", 0.4)
		if early {
			// the server does not wait for the end of the input
			k.acts = []GAct{send}
			if c.P("status", 0.4) {
				k.acts = append(k.acts, GAct{Op: "status", Code: codes.AlreadyExists, Val: "enough"})
			}
		}
		k.finish()
		s := k.g.Machine("a", quietNet(c.Swarm("a")))
		src := &kern.Source{Data: []byte(k.text), NoEOF: true}
		if len(k.text) > 0 {
			src.Chunks = []int{1 + c.N("first", len(k.text))}
			src.Delays = []time.Duration{call * time.Duration(c.N("delay", 9)) / 10}
		}
		r := l.Start(s, RunOpts{Stdin: src})
		s.Run()
		_, conn, _, connected := began(s, r)
		why := fmt.Sprintf("standard input stays open, server %s, call timeout %s", k.story(), call)
		if !connected {
			c.Violate("C12.early", "%s: it never connected: %s", why, r.Desc())
			return
		}
		if !r.P.Exited() {
			c.Violate("C12.hangs", "%s: it never gave up: %s", why, r.Desc())
			return
		}
		if r.P.Ended > conn+call+slack {
			c.Violate("C12.late", "%s: it gave up at %s, not at %s: %s", why, r.P.Ended, conn+call, r.Desc())
			return
		}
		if !early && (r.OK() || r.P.Ended < conn+call-slack) {
			c.Violate("C12.early", "%s: %s at %s", why, r.Desc(), r.P.Ended)
			return
		}
		c.Hit("c12.idle")
	})
	register("C12", "brief", 1, func(c *Ctx) {
		// the call may take next to no time, or none at all
		k := c.gcall()
		l := k.g.L
		call := c.timeoutFlag("call-timeout", "60s", l, "1ns", "1us", "100us", "-1ns", "-1s", "-3h")
		k.input(0)
		if len(k.inputs) > 1 && !k.inStream() {
			return
		}
		k.script()
		k.finish()
		cfg := c.Swarm("a")
		plain := c.P("plain", 0.5)
		if plain {
			cfg = quietNet(cfg)
		} else {
			cfg = gcfg(cfg, c)
		}
		s := k.g.Machine("a", cfg)
		r := l.Start(s, RunOpts{Stdin: k.source()})
		s.Run()
		_, conn, _, connected := began(s, r)
		why := fmt.Sprintf("server %s, call timeout %s", k.story(), call)
		switch {
		case !r.P.Exited():
			c.Violate("C12.hangs", "%s: it never gave up: %s", why, r.Desc())
		case !connected:
		case call < 0 && r.OK():
			c.Violate("C12.late", "%s: %s", why, r.Desc())
		case plain && call < time.Second && r.P.Ended > conn+slack:
			c.Violate("C12.late", "%s: it gave up at %s, not at %s: %s", why, r.P.Ended, conn, r.Desc())
		default:
			c.Hit("c12.brief")
		}
	})
}
