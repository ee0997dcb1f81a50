//go:build go1.25

package harness

import (
	"fmt"
	"io/fs"
	"path"
	"strings"
	"time"

	"verif.local/sim/kern"
)

// keep is a state and a place of the cache.
type keep struct {
	name          string
	args          []string
	env           map[string]string
	cold, offline bool
	litter        bool
}

func (c *Ctx) keep(key string, l *Load) keep {
	kinds := []string{"warm", "cold", "offline", "env", "xdg", "littered", "littered-cold", "home"}
	if !l.NoCache && !l.Own {
		kinds = append(kinds, "flag", "rel")
		if l.Name != "cache-update" {
			kinds = append(kinds, "own", "url")
		}
	}
	k := keep{name: kinds[c.N(key, len(kinds))]}
	switch k.name {
	case "cold":
		k.cold = true
	case "offline":
		k.offline = true
	case "env":
		k.cold, k.env = true, map[string]string{"PROTOTOOL_CACHE_PATH": "/var/pcache"}
	case "xdg":
		k.cold, k.env = true, map[string]string{"XDG_CACHE_HOME": "/var/pcache/xdg"}
	case "home":
		k.cold, k.env = true, map[string]string{"HOME": "/var/pcache/home"}
	case "littered":
		k.litter = true
	case "littered-cold":
		k.cold, k.litter = true, true
	case "flag":
		k.cold, k.args = true, []string{"--cache-path", "/var/pcache/abs/"}
	case "rel":
		k.cold, k.args = true, []string{"--cache-path", "../../../../../../../../var/pcache/x"}
	case "url":
		k.cold, k.args = true, []string{"--protoc-url", mirrorURL}
	case "own":
		k.offline, k.cold, k.args = true, true, []string{"--protoc-bin-path", ownProtoc + "/bin/protoc", "--protoc-wkt-path", ownProtoc + "/include"}
	}
	return k
}

// scatter puts things into the default cache that do not belong to a finished install.
func (c *Ctx) scatter(key string, s *Sim) {
	base := DefaultCache + "/Linux/x86_64/protobuf/"
	for i := 1 + c.N(key+"/things", 4); i > 0; i-- {
		k := fmt.Sprintf("%s/%d", key, i)
		switch c.N(k, 8) {
		case 0:
			s.K.FS.Put(base+"3.9.2/bin/protoc", []byte("garbage"), 0755)
		case 1:
			s.K.FS.Put(base+DefaultVer+".lock", nil, 0644)
		case 2:
			s.K.FS.Put(base+DefaultVer+".tmp/include/google/protobuf/any.proto", []byte("half"), 0600)
			s.K.FS.Put(base+DefaultVer+".tmp/bin/protoc", nil, 0644)
		case 3:
			s.K.FS.Put(base+"3.11", []byte("a file"), 0644)
		case 4:
			s.K.FS.MkdirAll(base + "4.0.0")
		case 5:
			s.K.FS.Put(DefaultCache+"/README", []byte("x"), 0644)
		case 6:
			s.K.FS.Put(base+"3.11.00/bin/protoc", kern.Image("protoc", "9.9.9"), 0755)
		case 7:
			s.K.FS.Put(DefaultCache+"/Linux/x86_64/protobuf.lock", []byte("1"), 0600)
		}
	}
}

func init() {
	register("C24", "caches", 1, func(c *Ctx) {
		g := c.Rig(LoadOpts{Except: []string{"create", "create-pkg", "create-nodir", "init", "init-dir", "init-doc", "grpc", "grpc-data", "cache-delete", "compile-dry", "generate-dry"},
			Proj: &ProjOpts{Errors: []float64{0, 0, 0.2}[c.N("errors", 3)], Unformatted: 0.3, LintFail: []float64{0, 0.3}[c.N("lintfail", 2)], Excludes: true, MaxDirs: 4, MaxFiles: 3, Plugins: 3, Rich: c.P("rich", 0.5)}})
		l := g.L
		args, env := l.Args, l.Env
		age := c.PickDur("age", 0, 0, 0, 2*time.Hour, 40*24*time.Hour)
		run := func(name string, k keep) []outcome {
			g.Cold = k.cold
			cfg := Quiet(brisk(c, name))
			cfg.Horizon = 300 * 24 * time.Hour
			s := g.Machine(name, cfg)
			if k.litter {
				c.scatter(name+"litter", s)
			}
			s.World()
			if k.name == "url" {
				s.AddRelease(mirrorURL, DefaultVer)
			}
			if k.name == "own" {
				for f, b := range archiveFiles(DefaultVer) {
					mode := fs.FileMode(0644)
					if strings.HasPrefix(f, "bin/") {
						mode = 0755
					}
					s.K.FS.Put(path.Join(ownProtoc, f), b, mode)
				}
			}
			if k.offline {
				s.K.Net.Resp = map[string]*kern.Resource{}
			}
			l.Args = append(append([]string(nil), args...), k.args...)
			l.Env = map[string]string{}
			for x, v := range env {
				l.Env[x] = v
			}
			for x, v := range k.env {
				l.Env[x] = v
			}
			var outs []outcome
			for i := 0; i < 2; i++ {
				if age > 0 {
					s.K.After(age, func() {})
					s.Run()
					c.Hit("c24.aged")
				}
				n := 0
				for _, x := range s.K.Net.Requests {
					n += x
				}
				r := l.Do(s, RunOpts{})
				m := -n
				for _, x := range s.K.Net.Requests {
					m += x
				}
				cold := k.cold && i == 0 && !l.NoCache && !l.Own && k.name != "own"
				if m > 0 && !cold {
					c.Violate("C24.network", "%s uses the network %d times, the cache is %s, run %d", r.Desc(), m, k.name, i+1)
				}
				// one place is used, and one source
				if d := s.K.FS.Lookup(DefaultCache); len(k.args) > 0 && k.name != "url" && d != nil {
					c.Violate("C24.network", "%s created %s", r.Desc(), DefaultCache)
				}
				if m > 1 {
					c.Violate("C24.network", "%s uses the network %d times: %v", r.Desc(), m, s.K.Net.Requests)
				}
				o := g.outcome(s, r)
				for p := range o.tree {
					if strings.Contains(p, "pcache") || under(p, ownProtoc) || p == "/var" || p == "/opt" || p == Home {
						delete(o.tree, p)
					}
				}
				if l.NoCache {
					for _, d := range []string{DefaultCache, "/var/pcache"} {
						if k.cold && !k.litter && s.K.FS.Lookup(d) != nil {
							c.Violate("C24.network", "%s created the cache %s", r.Desc(), d)
						}
					}
				}
				outs = append(outs, o)
				if m > 0 {
					c.Hit("c24.fetched")
				}
				// from now on it works without network
				s.K.Net.Resp = map[string]*kern.Resource{}
			}
			c.Hit("c24." + k.name)
			return outs
		}
		ka, kb := keep{name: "warm"}, c.keep("b", l)
		a, b := run("a", ka), run("b", kb)
		for i := range a {
			if d := a[i].diff(b[i]); d != "" {
				c.Violate("C24.differs", "%s: run %d of prototool %s, with a cache that is %s instead of warm, %v apart", d, i+1, strings.Join(l.Args, " "), kb.name, age)
				return
			}
		}
		if a[0].code == 0 {
			c.Hit("c24.ok")
		}
	})
}
