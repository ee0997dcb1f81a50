//go:build go1.25

package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verif.local/sim/kern"
)

// party is several commands and how they follow each other.
type party struct {
	users []*cacheUser
	after []time.Duration // start times; negative: after the one before has ended
	twice bool
}

// party generates commands; same is the chance that one uses the same install as the first.
func (l *lab) party(n int, same, together float64) *party {
	c := l.c
	p := &party{}
	for i := 0; i < n; i++ {
		var u *cacheUser
		key := fmt.Sprintf("u%d", i)
		if i > 0 && c.P(key+"/same", same) {
			u = l.user(key)
			v := p.users[0]
			if v.Uses != u.Uses || !u.Uses {
				u = v.like(key)
			} else if u.Base != v.Base {
				u = v.like(key)
			}
		} else {
			u = l.user(key)
		}
		p.users = append(p.users, u)
		d := time.Duration(-1)
		if c.P(key+"/together", together) {
			d = c.PickDur(key+"/at", 0, 0, time.Millisecond, 20*time.Millisecond, 300*time.Millisecond, 2*time.Second)
		}
		p.after = append(p.after, d)
	}
	return p
}

// run runs the party on a machine.
func (l *lab) run(p *party, o RunOpts) []*Run {
	return l.runEach(p, func(int) RunOpts { return o })
}

func (l *lab) runEach(p *party, o func(i int) RunOpts) []*Run {
	var out []*Run
	for i := 0; i < len(p.users); {
		out = append(out, nil)
		out[i] = l.start(p.users[i], o(i))
		j := i + 1
		for ; j < len(p.users) && p.after[j] >= 0; j++ {
			j := j
			out = append(out, nil)
			if p.after[j] == 0 {
				out[j] = l.start(p.users[j], o(j))
				continue
			}
			l.s.K.After(p.after[j], func() { out[j] = l.start(p.users[j], o(j)) })
		}
		l.s.Run()
		i = j
	}
	return out
}

func (p *party) String() string {
	var b []string
	for i, u := range p.users {
		b = append(b, fmt.Sprintf("[%s] prototool %s in %s env %v at %v", u.Label, strings.Join(u.Args, " "), u.Cwd, u.Env, p.after[i]))
	}
	return strings.Join(b, "; ")
}

func notStdout(e kern.EligibleOp, kind string) bool { return !strings.HasPrefix(kind, "stdout.") }

func init() {
	register("C01", "crashes", 3, func(c *Ctx) {
		l0 := c.newLab()
		p := l0.party(1+c.N("users", 4), 0.7, 0.4)
		c.Sample("%s", p)
		o := RunOpts{Crashable: true, Faulty: true, KidFaulty: c.P("kids", 0.3)}
		l := l0.machine(c.Sim("a", Quiet(c.Swarm("a"))))
		l.watch()
		for i, r := range l.run(p, o) {
			if !r.OK() {
				c.Violate("C01.stuck", "without faults, user %d: %s", i, r.Desc())
			}
		}
		l.settle(p.users)
		t := map[string]int{}
		for i := 0; i < 1+c.N("rounds", 3) && !c.Failed(); i++ {
			var x map[string]int
			if c.P(fmt.Sprintf("kill%d", i), 0.6) {
				x = c.aimCrashAs(fmt.Sprintf("crash%d", i), l.s, nil)
			} else {
				x = c.aimAs(fmt.Sprintf("aim%d", i), l.s, 1+c.N(fmt.Sprintf("many%d", i), 2), notStdout)
			}
			if x == nil {
				break
			}
			for k, v := range x {
				t[k] = v
			}
			l = l0.machine(c.Twin(fmt.Sprintf("b%d", i), l.s))
			l.s.K.Target = t
			l.watch()
			l.run(p, o)
			l.settle(p.users)
		}
	})
	register("C01", "random", 1, func(c *Ctx) {
		l0 := c.newLab()
		p := l0.party(1+c.N("users", 5), 0.7, 0.5)
		c.Sample("%s", p)
		cfg := c.disturb("a", true)
		cfg.MaxCrashes = 1 + c.N("crashes", 4)
		if c.P("http", 0.5) && cfg.Faults != nil {
			cfg.Faults["http.*"] = true
		}
		l := l0.machine(c.Sim("a", cfg))
		l.watch()
		l.run(p, RunOpts{Crashable: true, Faulty: true, KidFaulty: c.P("kids", 0.3)})
		l.settle(p.users)
	})
	register("C01", "power", 2, func(c *Ctx) {
		l0 := c.newLab()
		p := l0.party(1+c.N("users", 3), 0.7, 0.4)
		c.Sample("%s", p)
		a := l0.machine(c.Sim("a", Quiet(c.Swarm("a"))))
		a.watch()
		a.run(p, RunOpts{})
		l := l0.machine(c.Twin("b", a.s))
		l.watch()
		off := c.blackout("power", a.s, l.s)
		l.run(p, RunOpts{})
		off()
		l.settle(p.users)
	})
	register("C01", "downloads", 2, func(c *Ctx) {
		l0 := c.newLab()
		p := l0.party(2+c.N("users", 3), 0.8, 0.3)
		c.Sample("%s", p)
		l := l0.machine(c.Sim("a", Quiet(c.Swarm("a"))))
		l.watch()
		n := 1 + c.N("bad", 3)
		for _, url := range urlsOf(l.s.K) {
			good := l.s.K.Net.Resp[url]
			r := &kern.Resource{}
			for i := 0; i < n; i++ {
				x := l.damage(fmt.Sprintf("%s/%d", url, i), url)
				x.FirstByte = c.PickDur(fmt.Sprintf("%s/%d/wait", url, i), 0, 0, 100*time.Millisecond, 3*time.Second)
				r.Seq = append(r.Seq, x)
			}
			r.Seq = append(r.Seq, good)
			r.Status, r.Body = 200, good.Body
			l.s.K.Net.Resp[url] = r
		}
		// what is at a file:// URL is no better, and may be being written
		restore := func() {}
		for _, url := range []string{fileURL, file2URL} {
			src := strings.TrimPrefix(url, "file://")
			good, _ := l.s.K.FS.Get(src)
			l.s.K.Net.Resp[url] = &kern.Resource{Status: 200, Body: good}
			x := l.damage(url, url)
			delete(l.s.K.Net.Resp, url)
			l.s.K.FS.Remove(src)
			switch {
			case x.Status == 0:
			case x.Status != 200:
				l.s.K.FS.MkdirAll(src)
			default:
				l.s.K.FS.Put(src, x.Body, 0644)
			}
			back := restore
			restore = func() {
				back()
				if l.s.K.FS.Lookup(src) != nil {
					l.s.K.FS.Remove(src)
				}
				l.s.K.FS.Put(src, good, 0644)
			}
		}
		if c.P("file/soon", 0.3) {
			l.s.K.After(c.PickDur("file/when", time.Millisecond, 20*time.Millisecond, 300*time.Millisecond, time.Second), restore)
		}
		l.run(p, RunOpts{})
		for url, r := range l.s.K.Net.Resp {
			*r = *r.Seq[len(r.Seq)-1]
			_ = url
		}
		restore()
		l.settle(p.users)
	})
	register("C01", "repair", 1, func(c *Ctx) {
		l0 := c.newLab()
		p := l0.party(1+c.N("users", 3), 0.8, 0.5)
		c.Sample("%s", p)
		l := l0.machine(c.Sim("a", Quiet(brisk(c, "a"))))
		u := p.users[0]
		if c.P("installed", 0.6) {
			l.start(u.like("first"), RunOpts{})
			l.s.Run()
		}
		l.tamper("how", u)
		l.watch()
		for i, r := range l.run(p, RunOpts{}) {
			if !r.OK() {
				c.Violate("C01.stuck", "user %d with a damaged cache (%s): %s", i, l.tree(u), r.Desc())
			}
		}
		l.settle(p.users)
	})
}

// tamper damages the install of a user in a way its executable shows, or leaves rubbish around it.
func (l *lab) tamper(key string, u *cacheUser) {
	f, c := l.s.K.FS, l.c
	l.bases[u.Base] = u.URL
	how := c.Pick(key, "noexe", "garbage", "cut", "mode", "version", "crash", "exit", "dir", "rubbish", "partial", "file")
	c.Hit("tamper." + how)
	f.MkdirAll(u.Base + "/bin")
	bin := u.Base + "/bin/protoc"
	img := archiveFiles(u.Ver)["bin/protoc"]
	gone := func(p string) {
		if f.Lookup(p) != nil {
			f.Remove(p)
		}
	}
	switch how {
	case "noexe":
		gone(bin)
	case "garbage":
		f.Put(bin, []byte("\x7fELF garbage"), 0755)
	case "cut":
		f.Put(bin, img[:len(img)-c.N(key+"/cut", len(img)-20)-1], 0755)
	case "mode":
		f.Put(bin, img, 0644)
	case "version":
		gone(bin)
		if strings.Contains(u.Base, "=") {
			return // nobody knows which version a URL has
		}
		v := c.Pick(key+"/v", "3.9.2", "3.11.01", "3.1", "3.11.0-rc-1", "13.11.0")
		if v == u.Ver {
			v = DefaultVer
		}
		for n, b := range archiveFiles(v) {
			f.Put(u.Base+"/"+n, b, 0755)
		}
	case "crash", "exit":
		f.Put(bin, kern.Image("protoc "+how, ""), 0755)
	case "dir":
		gone(bin)
		f.MkdirAll(bin + "/x")
	case "partial":
		f.Remove(u.Base)
		f.MkdirAll(u.Base + "/include/google")
	case "file":
		f.Remove(u.Base)
		f.Put(u.Base, []byte("what is this"), 0644)
	case "rubbish":
		gone(bin)
	}
	if how == "rubbish" || c.P(key+"/tmp", 0.4) {
		switch c.N(key+"/what", 4) {
		case 0:
			f.MkdirAll(u.Base + ".tmp/new/bin")
			f.Put(u.Base+".tmp/new/bin/protoc", img[:100], 0755)
		case 1:
			f.MkdirAll(u.Base + ".tmp/old/bin")
			f.MkdirAll(u.Base + ".tmp/new/include")
		case 2:
			f.Put(u.Base+".tmp", []byte("rubbish"), 0644)
		case 3:
			f.Put(u.Base+".lock", []byte("12345\n"), 0600)
		}
	}
}

func urlsOf(k *kern.Kernel) []string {
	var out []string
	for u := range k.Net.Resp {
		out = append(out, u)
	}
	sort.Strings(out)
	return out
}
