//go:build go1.25

package harness

import (
	"strings"
	"syscall"
	"time"

	"verif.local/sim/kern"
)

// usesProtoc are the commands that run protoc.
var usesProtoc = []string{"compile", "compile-arg", "lint", "lint-ignores", "format", "format-d", "format-l", "format-w", "format-fw", "format-file",
	"generate", "generate", "all", "all", "all-nofmt", "all-nolint", "all-fix", "ds", "ds-json", "ds-out", "ds-tmp", "break-git", "break-ds", "break-out", "break-json",
	"inspect", "inspect-deps", "grpc", "compile-file", "lint-file", "generate-file", "all-file", "ds-file"}

// realProtoc tells whether a process is a protoc that compiles.
func realProtoc(p *kern.Proc) bool {
	return p.Prog == "protoc" && p.Argv[len(p.Argv)-1] != "--version"
}

// slowDown makes protoc take its time for some files.
func (c *Ctx) slowDown(key string, files map[string]string) {
	p := []float64{0.3, 0, 0.8}[c.N(key+"/slowp", 3)]
	for _, f := range sortedKeys(files) {
		if strings.HasSuffix(f, ".proto") && c.P(key+"/slow/"+f, p) {
			ms := []string{"200", "0", "3000", "30000"}[c.N(key+"/slowby/"+f, 4)]
			files[f] = "// @protoc-sleep " + ms + "\n\n" + files[f]
		}
	}
}

// intr watches an interrupt.
type intr struct {
	g        *Rig
	s        *Sim
	r        *Run
	sig      syscall.Signal
	sent     bool
	step     int
	at       time.Duration
	log      int
	strict   bool
	running  []*kern.Proc
	inFlight map[string]bool // operations of the command under way, "kind arg"
	mayStart int
}

// send delivers the signal.
func (x *intr) send(group bool) {
	r, s := x.r, x.s
	if r.P.Dead {
		return
	}
	targets := []*kern.Proc{r.P}
	if group {
		targets = append(targets, s.Descendants(r)...)
	}
	if !x.sent {
		x.sent = true
		x.step, x.at, x.log = s.K.Step, s.K.Now(), len(s.K.Log)
		x.inFlight = map[string]bool{}
		gs := map[int]bool{}
		for _, op := range s.K.PendingOps() {
			if op.P == r.P {
				x.inFlight[op.Kind+" "+op.Arg] = true
				if op.Kind != "wait" && op.Kind != "read" && op.Kind != "sleep" {
					gs[op.Gi] = true
				}
			}
		}
		x.mayStart = len(gs)
		descheduled := false
		for _, op := range s.K.PendingOps() {
			descheduled = descheduled || op.P == r.P && op.Kind == "yield"
		}
		for _, p := range r.P.Kids {
			// how soon the program gets to see the signal is not what is judged
			if realProtoc(p) && !p.Dead && !descheduled {
				x.strict = true
				x.running = append(x.running, p)
			}
		}
		if x.strict {
			s.C.Hit("c06.interrupted_protoc")
			s.K.Cfg.YieldP = 0
		} else {
			s.C.Hit("c06.interrupted_elsewhere")
		}
	}
	for _, p := range targets {
		s.K.Kill(p, x.sig)
	}
}

// check judges what followed.
func (x *intr) check(before map[string]string) {
	if !x.sent {
		return
	}
	s, r, c := x.s, x.r, x.g.C
	ops, starts := 0, 0
	handled := false
	what := ""
	for i, e := range s.K.Log {
		if i < x.log {
			continue
		}
		if e.P == r.P {
			ops++
			if e.Kind == "signal" && e.Res != "terminated" {
				handled = true
			}
		}
		switch {
		case e.Kind == "exec" && e.P == r.P && strings.HasPrefix(e.Res, "pid"):
			starts++
			if x.strict && starts > x.mayStart {
				c.Violate("C06.phase", "%s: %s arrived while protoc was running, but afterwards it started %s", r.Desc(), x.sig, clip(e.Arg, 200))
			}
			what = "started " + clip(e.Arg, 200)
		case e.Kind == "connect" && e.P == r.P && !x.inFlight["connect "+e.Arg]:
			if x.strict {
				c.Violate("C06.phase", "%s: %s arrived while protoc was running, but afterwards it connected to %s", r.Desc(), x.sig, e.Arg)
			}
			what = "connected to " + e.Arg
		}
	}
	for _, m := range s.Muts {
		if m.P != r.P || m.Step <= x.step || under(m.Path, "/tmp") || under(m.Path, DefaultCache) {
			continue
		}
		first := ""
		for _, e := range s.K.Log {
			if e.Step == m.Step && e.P == r.P {
				first = e.Kind + " " + e.Arg
				break
			}
		}
		if x.inFlight[first] {
			continue
		}
		what = m.Kind + " of " + m.Path
		if x.strict {
			c.Violate("C06.phase", "%s: %s arrived while protoc was running, but afterwards %s", r.Desc(), x.sig, what)
			break
		}
	}
	if !r.P.Dead {
		return
	}
	took := r.P.Ended - x.at
	if x.strict {
		if r.OK() {
			c.Violate("C06.success", "%s although %s arrived while protoc was running", r.Desc(), x.sig)
		}
		if max := 5*time.Second + time.Duration(ops)*2*time.Second; took > max {
			c.Violate("C06.late", "%s, %s after %s arrived while protoc was running", r.Desc(), took, x.sig)
		}
		if !r.P.Exited() {
			for _, p := range x.running {
				if p.Ended > r.P.Ended || !p.Dead {
					c.Violate("C06.running", "%s, and left %s running", r.Desc(), clip(strings.Join(p.Argv, " "), 200))
				}
			}
		}
		return
	}
	if r.OK() && handled {
		// a signal that comes too late to change anything may be ignored
		if what == "" && took > 5*time.Second+time.Duration(ops)*2*time.Second {
			what = "went on for " + took.String()
		}
		if what != "" {
			c.Violate("C06.swallowed", "%s although it received %s, and afterwards it %s", r.Desc(), x.sig, what)
		}
	}
}

func init() {
	run := func(mode string) func(c *Ctx) {
		return func(c *Ctx) {
			o := LoadOpts{Only: usesProtoc, Errors: []float64{0, 0, 0.3}[c.N("errs", 3)]}
			if mode == "grpc" {
				o.Only = []string{"grpc"}
				o.Errors = 0
			}
			g := c.Rig(o)
			l := g.L
			c.slowDown("cur", l.P.Files)
			if l.Prev != nil {
				c.slowDown("prev", l.Prev)
			}
			if l.Name == "break-ds" {
				// made before the files became slow; that does not matter
				_ = g.Set
			}
			g.Cold = c.P("cold", 0.1)
			s := g.Machine("a", Quiet(c.Swarm("a")))
			if mode == "grpc" {
				d := c.PickDur("calltime", 30*time.Second, 5*time.Second)
				s.GRPC("srv:80", func(string, int) []GAct {
					return []GAct{{Op: "recv"}, {Op: "sleep", D: d}, {Op: "recvall"}, {Op: "send", Val: "late", N: 1}}
				})
			}
			before := s.K.FS.Snapshot("/")
			r := l.Start(s, RunOpts{})
			x := &intr{g: g, s: s, r: r, sig: []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[c.N("sig", 2)]}
			g.watchEnd(s, r)
			group := c.P("group", 0.4)
			skip := c.N("skip", []int{60, 8, 300}[c.N("skipmax", 3)])
			wait := c.PickDur("wait", 0, 0, 100*time.Millisecond, 500*time.Millisecond, 2*time.Second, 10*time.Second)
			again := c.P("again", 0.25)
			againIn := c.PickDur("againin", time.Millisecond, 100*time.Millisecond, 700*time.Millisecond)
			fire := func() {
				s.K.After(wait, func() {
					x.send(group)
					if again {
						s.K.After(againIn, func() { x.send(group) })
					}
				})
			}
			switch mode {
			case "protoc":
				s.K.When(func() bool {
					for _, p := range r.P.Kids {
						if realProtoc(p) && !p.Dead {
							skip--
							return skip < 0
						}
					}
					return false
				}, fire)
			case "after":
				// between and after compilations
				s.K.When(func() bool {
					n := 0
					for _, p := range r.P.Kids {
						if realProtoc(p) {
							if !p.Dead {
								return false
							}
							n++
						}
					}
					if n > 0 {
						skip--
					}
					return n > 0 && skip < 0
				}, fire)
			default:
				s.K.At(c.PickDur("grpcat", 3*time.Second, 100*time.Millisecond, 500*time.Millisecond, 10*time.Second), func() { x.send(group) })
			}
			s.Run()
			x.check(before)
		}
	}
	register("C06", "protoc", 4, run("protoc"))
	register("C06", "after", 2, run("after"))
	register("C06", "grpc", 1, run("grpc"))
}
