//go:build go1.25

package harness

import (
	"fmt"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/kern"
)

const (
	lockWait  = 10 * time.Second
	lockRetry = 250 * time.Millisecond
)

// free finds a time between from and to during which a lock was free all the time for longer than d.
func (l *lab) free(file, but string, from, to, d time.Duration) string {
	at := from
	for _, sp := range l.held[file] {
		if strings.TrimSpace(sp.by) == but {
			continue
		}
		if sp.from > to {
			break
		}
		if sp.from-at > d {
			return fmt.Sprintf("from %v to %v", at, sp.from)
		}
		if sp.to > at {
			at = sp.to
		}
	}
	if to-at > d {
		return fmt.Sprintf("from %v to %v", at, to)
	}
	return ""
}

// checkWaiter judges how a command without faults of its own dealt with the lock.
func (l *lab) checkWaiter(r *Run, u *cacheUser, slack time.Duration) {
	c := l.c
	if r == nil || !r.P.Dead || r.P.Sig != 0 {
		return
	}
	took := r.P.Ended - r.P.Started
	if l.had[r.P] {
		// it got the lock; with a good origin it then succeeds
		if !r.OK() {
			c.Violate("C03.failed", "it got the lock at last, but: %s", r.Desc())
		}
		c.Hit("waiter.got")
		if waited := l.got[r.P] - r.P.Started; waited > lockWait+lockRetry+slack {
			c.Violate("C03.late", "it waited %v for the lock: %s", waited, r.Desc())
		}
		if took > time.Second {
			c.Hit("waiter.waited")
		}
		return
	}
	c.Hit("waiter.gaveup")
	if r.OK() {
		c.Violate("C03.proceeded", "it never got the lock: %s", r.Desc())
	}
	if f := l.tried[r.P]; f == "" || !strings.Contains(r.Stdout(), f) {
		c.Violate("C03.message", "it never got the lock %q: %s", f, r.Desc())
	}
	if took > lockWait+lockRetry+slack {
		c.Violate("C03.late", "it never got the lock, and took %v: %s", took, r.Desc())
	}
	if took < lockWait-lockRetry {
		c.Violate("C03.early", "it gave up the lock after %v: %s", took, r.Desc())
	}
	same := false
	for _, sp := range l.held[l.tried[r.P]] {
		for _, by := range strings.Fields(sp.by) {
			if o := l.users[by]; sp.to >= r.P.Started && (o == nil || o.Base == u.Base) {
				same = true
			}
		}
	}
	if !same && u != nil {
		c.Violate("C03.other", "it never got the lock, but nobody else was busy with %s: %s", u.Base, r.Desc())
	}
	if f := l.free(l.tried[r.P], r.P.Label, r.P.Started, r.P.Ended, lockRetry+slack); f != "" {
		c.Violate("C03.free", "the lock was free %s, but: %s", f, r.Desc())
	}
}

func init() {
	register("C03", "holder", 3, func(c *Ctx) {
		l0 := c.newLab()
		p := l0.party(2+c.N("users", 4), 0.85, 1)
		for i := range p.users {
			if i > 0 {
				p.after[i] = c.PickDur(fmt.Sprintf("w%d/at", i), 0, 10*time.Millisecond, time.Second, 2900*time.Millisecond, 4900*time.Millisecond, 5*time.Second, 5100*time.Millisecond, 9900*time.Millisecond, 15*time.Second)
			}
			if strings.HasPrefix(p.users[i].URL, "file:") {
				p.users[i] = p.users[0].like(p.users[i].Label)
			}
		}
		c.Sample("%s", p)
		cfg := Quiet(brisk(c, "a"))
		l := l0.machine(c.Sim("a", cfg))
		k := l.s.K
		// how long the download takes, and possibly the end of whoever does it
		for _, u := range urlsOf(k) {
			res := k.Net.Resp[u]
			for i := 0; i < 3; i++ {
				x := *res
				x.FirstByte = c.PickDur(fmt.Sprintf("%s/%d", u, i), 15*time.Second, 0, 3*time.Second, 9*time.Second, 9700*time.Millisecond, 10*time.Second, 10200*time.Millisecond, 12*time.Second, 60*time.Second)
				res.Seq = append(res.Seq, &x)
			}
		}
		l.watch()
		killed := map[*kern.Proc]bool{}
		for i := 0; i < c.N("kills", 3); i++ {
			i := i
			k.After(c.PickDur(fmt.Sprintf("kill%d", i), 5*time.Second, time.Second, 9800*time.Millisecond, 10*time.Second, 14*time.Second, 20*time.Second), func() {
				// whoever holds the lock
				for _, h := range k.Procs {
					if h.Dead || !holds(h) {
						continue
					}
					killed[h] = true
					c.Hit("holder.killed")
					k.Kill(h, []syscall.Signal{syscall.SIGKILL, syscall.SIGTERM, syscall.SIGINT}[c.N(fmt.Sprintf("sig%d", i), 3)])
				}
			})
		}
		for i, r := range l.run(p, RunOpts{}) {
			if r != nil && !killed[r.P] {
				l.checkWaiter(r, p.users[i], 100*time.Millisecond)
			}
		}
		for _, u := range urlsOf(k) {
			k.Net.Resp[u].Seq = nil
		}
		l.settle(p.users)
	})
	register("C03", "crash", 3, func(c *Ctx) {
		// as soon as a command dies, others get the lock
		l0 := c.newLab()
		if c.P("slow", 0.5) {
			for d := range l0.files {
				l0.files[d]["a/a.proto"] += "// @protoc-sleep 14000\n"
			}
		}
		u := l0.user("u0")
		n := 1 + c.N("next", 3)
		c.Sample("prototool %v in %s env %v, then %d like it", u.Args, u.Cwd, u.Env, n)
		l := l0.machine(c.Sim("a", Quiet(brisk(c, "a"))))
		warm := c.P("warm", 0.3)
		prep := func() {
			if warm {
				l.start(u.like("warm"), RunOpts{})
				l.s.Run()
			}
			l.watch()
		}
		prep()
		o := RunOpts{Crashable: true, Faulty: true}
		r := l.start(u, o)
		l.s.Run()
		if !r.OK() {
			c.Violate("C03.failed", "without faults: %s", r.Desc())
			return
		}
		var t map[string]int
		if c.P("kill", 0.7) {
			t = c.aimCrash(l.s, nil)
		} else {
			t = c.aim(l.s, 1+c.N("many", 2), notStdout)
		}
		if t == nil {
			return
		}
		l = l0.machine(c.Twin("b", l.s))
		prep()
		k := l.s.K
		k.Target = t
		r = l.start(u, o)
		var rs []*Run
		gap := c.PickDur("gap", 0, time.Millisecond, 300*time.Millisecond)
		k.When(func() bool { return r.P.Dead }, func() {
			k.After(gap, func() {
				for i := 0; i < n; i++ {
					rs = append(rs, l.start(u.like(fmt.Sprintf("next%d", i)), RunOpts{}))
				}
			})
		})
		l.s.Run()
		for i, x := range rs {
			if !x.OK() {
				c.Violate("C03.failed", "command %d after the faults (%s): %s", i, faultsOf(l.s), x.Desc())
				return
			}
		}
		if len(rs) != n {
			c.Violate("C03.failed", "%d of %d commands ran after %s", len(rs), n, r.Desc())
			return
		}
		// the first to try gets it without waiting
		if n == 1 {
			for _, e := range k.Log {
				if e.Kind == "flock" && e.P == rs[0].P && e.Res != "" {
					c.Violate("C03.wedged", "after %s, the lock was not free: %s %s; faults: %s", r.Desc(), e.Arg, e.Res, faultsOf(l.s))
					return
				}
			}
		}
		l.settle([]*cacheUser{u})
	})
	register("C03", "release", 2, func(c *Ctx) {
		// a command that has its protoc does not keep others waiting
		l0 := c.newLab()
		for d := range l0.files {
			l0.files[d]["a/a.proto"] += "// @protoc-sleep 14000\n"
		}
		p := l0.party(2+c.N("users", 4), 1, 1)
		c.Sample("%s", p)
		l := l0.machine(c.Sim("a", Quiet(brisk(c, "a"))))
		bad := c.P("bad", 0.3)
		if bad {
			for _, u := range urlsOf(l.s.K) {
				l.s.K.Net.Resp[u].Seq = []*kern.Resource{l.damage("bad", u), l.s.K.Net.Resp[u]}
				l.s.K.Net.Resp[u].Seq[1] = &kern.Resource{Status: 200, Body: l.s.K.Net.Resp[u].Body}
			}
		}
		l.watch()
		fails := 0
		for i, r := range l.run(p, RunOpts{}) {
			if r == nil {
				continue
			}
			if !r.OK() {
				fails++
				if !bad || fails > 1 {
					c.Violate("C03.failed", "user %d: %s", i, r.Desc())
					return
				}
			}
			if l.had[r.P] {
				c.Hit("release.got")
			}
		}
		l.settle(p.users)
	})
	register("C03", "flock", 1, func(c *Ctx) {
		// without a lock there is no install
		l0 := c.newLab()
		p := l0.party(1+c.N("users", 4), 0.9, 1)
		c.Sample("%s", p)
		cfg := c.disturb("a", false)
		cfg.Faults = map[string]bool{"flock.*": true, "funlock.*": true}
		if c.P("open", 0.5) {
			cfg.Faults["open.*"] = true
		}
		if c.P("mkdir", 0.3) {
			cfg.Faults["mkdir.*"] = true
		}
		cfg.FaultP = []float64{0.1, 0.3, 0.6}[c.N("p", 3)]
		cfg.MaxFaults = 1 + c.N("n", 6)
		cfg.LatencyP = 0
		l := l0.machine(c.Sim("a", cfg))
		l.watch()
		for _, r := range l.run(p, RunOpts{Faulty: true}) {
			if r != nil && r.OK() && !l.had[r.P] {
				c.Violate("C03.proceeded", "it never got the lock: %s; faults: %s", r.Desc(), faultsOf(l.s))
				return
			}
		}
		l.settle(p.users)
	})
}
