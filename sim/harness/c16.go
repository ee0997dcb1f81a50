//go:build go1.25

package harness

import (
	"path"
	"sort"
	"strings"
)

// What cannot be read is not always an operation that fails by chance: a file can be a link that leads nowhere, a link
// to itself, or a directory. The command is then to fail, or to do what it does when all is well.
func init() {
	register("C16", "states", 1, func(c *Ctx) {
		g := c.Rig(LoadOpts{Errors: []float64{0, 0, 0.15}[c.N("errs", 3)], Except: []string{"help", "version", "version-json", "init", "init-doc", "init-dir", "lint-groups", "lint-diff", "cache-delete"}})
		a := g.Machine("a", Plain())
		before := userTree(a)
		ra := g.L.Do(a, RunOpts{})
		oa := g.outcome(a, ra)

		p := g.L.P
		var cands []string
		switch n := c.N("what", 8); {
		case n < 3 && p.CfgName != "":
			cands = []string{Work + "/" + p.CfgName}
		case n < 5:
			for _, f := range p.Selected(g.L.Sub) {
				cands = append(cands, Work+"/"+f)
			}
		case n == 5:
			for _, f := range sortedKeys(a.K.FS.Snapshot(DefaultCache)) {
				if strings.HasSuffix(f, "/bin/protoc") || strings.HasSuffix(f, "/include") || strings.HasSuffix(f, "/timestamp.proto") {
					cands = append(cands, f)
				}
			}
		default:
			for f := range before {
				if b, ok := a.K.FS.Get(f); ok && len(b) > 0 && !strings.HasSuffix(f, ".proto") && under(f, Work) {
					cands = append(cands, f)
				}
			}
			for f := range p.Outside {
				cands = append(cands, f)
			}
		}
		sort.Strings(cands)
		if len(cands) == 0 {
			return
		}
		victim := cands[c.N("victim", len(cands))]
		if g.L.Out == victim || g.L.mayWrite(victim) {
			return
		}
		b := g.Twin("b", a)
		if b.K.FS.Lookup(victim) == nil {
			return
		}
		b.K.FS.Remove(victim)
		kind := c.Pick("kind", "dangling", "loop", "dir", "linkdir", "beyond")
		if strings.HasSuffix(kind, "dir") && strings.HasSuffix(victim, ".proto") {
			kind = "loop" // a directory may have any name
		}
		switch kind {
		case "dangling":
			b.K.FS.Symlink("gone/nowhere", victim)
		case "loop":
			b.K.FS.Symlink(path.Base(victim), victim)
		case "dir":
			b.K.FS.MkdirAll(victim)
		case "linkdir":
			b.K.FS.MkdirAll("/srv/other")
			b.K.FS.Symlink("/srv/other", victim)
		case "beyond":
			// a link through something that is not a directory
			b.K.FS.Put("/srv/file", []byte("x"), 0644)
			b.K.FS.Symlink("/srv/file/below", victim)
		}
		rb := g.L.Do(b, RunOpts{})
		if !rb.OK() {
			return
		}
		c.Hit("c16.state." + kind)
		ob := g.outcome(b, rb)
		for f := range ob.tree {
			if under(f, victim) || under(f, "/srv") {
				delete(ob.tree, f)
			}
		}
		for f := range oa.tree {
			if under(f, victim) || under(f, "/srv") {
				delete(oa.tree, f)
			}
		}
		if d := oa.diff(ob); d != "" {
			c.Violate("C16.state", "%s although %s is %s: %s", rb.Desc(), victim, map[string]string{"dangling": "a dangling link", "loop": "a link to itself", "dir": "a directory", "linkdir": "a link to a directory", "beyond": "a link through a file"}[kind], d)
		}
	})
}
