//go:build go1.25

package harness

import (
	"fmt"
	"strings"
	"time"

	"verif.local/sim/kern"
)

func brisk(c *Ctx, name string) kern.Config {
	cfg := c.Swarm(name)
	cfg.LatencyP = []float64{0, 0.02, 0.1}[c.N("brisk/"+name, 3)]
	cfg.Latencies = []time.Duration{time.Millisecond, 5 * time.Millisecond}
	return cfg
}

func init() {
	register("C02", "together", 3, func(c *Ctx) {
		l0 := c.newLab()
		p := l0.party(2+c.N("users", 5), 0.75, 0.9)
		c.Sample("%s", p)
		l := l0.machine(c.Sim("a", Quiet(brisk(c, "a"))))
		for _, u := range urlsOf(l.s.K) {
			l.s.K.Net.Resp[u].FirstByte = c.PickDur("wait", 0, 0, 200*time.Millisecond, 2*time.Second)
			l.s.K.Net.Resp[u].Chunk = []int{0, 0, 700, 4096}[c.N("chunk", 4)]
		}
		// what is in the caches already
		want := map[string]int{}
		bases := map[string]bool{}
		for i, u := range p.users {
			if bases[u.Base] {
				continue
			}
			bases[u.Base] = true
			if strings.HasPrefix(u.URL, "http") {
				want[u.URL]++
			}
			switch c.Pick(fmt.Sprintf("before%d", i), "nothing", "nothing", "complete", "damaged") {
			case "complete":
				l.start(u.like(fmt.Sprintf("before%d", i)), RunOpts{})
				l.s.Run()
				if strings.HasPrefix(u.URL, "http") {
					want[u.URL]--
				}
				c.Hit("together.complete")
			case "damaged":
				l.tamper(fmt.Sprintf("tamper%d", i), u)
			}
		}
		// an install nobody asked for stays as it is
		other := p.users[0].Dir + "/protobuf/3.8.0"
		for n, b := range archiveFiles("3.8.0") {
			l.s.K.FS.Put(other+"/"+n, b, 0755)
		}
		bystander := l.s.K.FS.Snapshot(other)
		before := map[string]int{}
		for u, n := range l.s.K.Net.Requests {
			before[u] = n
		}
		l.watch()
		for i, r := range l.run(p, RunOpts{}) {
			if r == nil || !r.OK() {
				c.Violate("C02.failed", "without faults, user %d: %s", i, r.Desc())
				return
			}
		}
		for _, u := range urlsOf(l.s.K) {
			if n := l.s.K.Net.Requests[u] - before[u]; n != want[u] {
				c.Violate("C02.fetched", "%s was fetched %d times instead of %d times", u, n, want[u])
			}
		}
		for u := range l.s.K.Net.Requests {
			if l.s.K.Net.Resp[u] == nil {
				c.Violate("C02.fetched", "%s was fetched", u)
			}
		}
		if d := Diff(bystander, l.s.K.FS.Snapshot(other)); len(d) > 0 {
			c.Violate("C02.bystander", "another version in the same cache: %s", strings.Join(d, ", "))
		}
		l.settle(p.users)
	})
	register("C02", "faults", 2, func(c *Ctx) {
		l0 := c.newLab()
		p := l0.party(2+c.N("users", 4), 0.85, 0.9)
		c.Sample("%s", p)
		l := l0.machine(c.Sim("a", Quiet(brisk(c, "a"))))
		warm := c.P("warm", 0.3)
		prep := func(l *lab) {
			if warm {
				l.start(p.users[0].like("warm"), RunOpts{})
				l.s.Run()
			}
			l.watch()
		}
		prep(l)
		bad := map[int]bool{}
		for i := range p.users {
			if c.P(fmt.Sprintf("bad%d", i), 0.4) {
				bad[i] = true
			}
		}
		opts := func(i int) RunOpts {
			if bad[i] {
				return RunOpts{Crashable: true, Faulty: true}
			}
			return RunOpts{}
		}
		for i, r := range l.runEach(p, opts) {
			if !r.OK() {
				c.Violate("C02.failed", "without faults, user %d: %s", i, r.Desc())
				return
			}
		}
		t := map[string]int{}
		for i := 0; i < 1+c.N("rounds", 2) && !c.Failed(); i++ {
			var x map[string]int
			if c.P(fmt.Sprintf("kill%d", i), 0.5) {
				x = c.aimCrashAs(fmt.Sprintf("crash%d", i), l.s, nil)
			} else {
				x = c.aimAs(fmt.Sprintf("aim%d", i), l.s, 1+c.N(fmt.Sprintf("many%d", i), 2), func(e kern.EligibleOp, kind string) bool {
					return notStdout(e, kind) && kind != "http.stall"
				})
			}
			if x == nil {
				return
			}
			for k, v := range x {
				t[k] = v
			}
			l = l0.machine(c.Twin(fmt.Sprintf("b%d", i), l.s))
			prep(l)
			l.s.K.Target = t
			for j, r := range l.runEach(p, opts) {
				if !bad[j] && !r.OK() {
					c.Violate("C02.failed", "user %d, while other commands met faults (%s): %s", j, faultsOf(l.s), r.Desc())
					return
				}
			}
			l.settle(p.users)
		}
	})
	register("C02", "probe", 1, func(c *Ctx) {
		// one command meets trouble when it checks a complete install others are using
		l0 := c.newLab()
		for i := 0; i < 2+c.N("dirs", 12); i++ {
			for d := range l0.files {
				l0.files[d][fmt.Sprintf("d%d/d.proto", i)] = strings.Replace(l0.files[d]["a/a.proto"], "package a", fmt.Sprintf("package d%d", i), 1)
			}
		}
		p := l0.party(2+c.N("users", 3), 1, 1)
		c.Sample("%s", p)
		cfg := Quiet(brisk(c, "a"))
		cfg.LatencyP = 0.15
		cfg.NumCPU = 1 + c.N("cpus", 2)
		prep := func(l *lab) *lab {
			l.start(p.users[0].like("warm"), RunOpts{})
			l.s.Run()
			l.watch()
			return l
		}
		opts := func(i int) RunOpts { return RunOpts{Faulty: i == len(p.users)-1} }
		l := prep(l0.machine(c.Sim("a", cfg)))
		l.runEach(p, opts)
		any := c.P("any", 0.2)
		t := c.aim(l.s, 1, func(e kern.EligibleOp, kind string) bool {
			if !any {
				return e.Kind == "exec" && strings.HasSuffix(e.Arg, "/bin/protoc --version")
			}
			return strings.HasPrefix(kind, "exec.") || kind == "open.EMFILE" || e.Kind == "stat"
		})
		if t == nil {
			return
		}
		l = prep(l0.machine(c.Twin("b", l.s)))
		l.s.K.Target = t
		rs := l.runEach(p, opts)
		for _, m := range l.s.Muts {
			if m.Kind == "rename.from" && m.Path == p.users[0].Base {
				c.Hit("probe.replaced")
				for _, q := range l.s.K.Procs {
					if q.Prog == "protoc" && q.Started <= m.At && q.Ended >= m.At && root(q) != m.P {
						c.Hit("probe.while")
					}
				}
			}
		}
		for j, r := range rs {
			if j < len(p.users)-1 && !r.OK() {
				c.Violate("C02.failed", "user %d, while another command met faults (%s): %s", j, faultsOf(l.s), r.Desc())
				return
			}
		}
	})
}
