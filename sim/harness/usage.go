//go:build go1.25

package harness

import "strings"

// misuse is a command line that asks for things that exclude each other, or that is not complete.
func (c *Ctx) misuse(l *Load) {
	one := func(list ...[]string) []string { return append([]string(nil), list[c.N("which", len(list))]...) }
	switch c.Pick("misuse", "both", "modes", "lists", "many", "none", "unknown", "value", "config", "config", "protoc") {
	case "both":
		l.Args = one([]string{"descriptor-set", "-o", "set.bin", "--tmp"}, []string{"descriptor-set", "--tmp", "--json", "--output-path=set.json"},
			[]string{"break", "check", "--git-branch", "base", "--descriptor-set-path", "prev.bin"})
	case "modes":
		m := []string{"-w", "-d", "-l"}
		drop := c.N("drop", 4)
		l.Args = []string{"format"}
		for i, f := range m {
			if i != drop {
				l.Args = append(l.Args, f)
			}
		}
		if c.P("fix", 0.3) {
			l.Args = append(l.Args, "-f")
		}
	case "lists":
		m := []string{"--list-all-linters", "--list-linters", "--list-all-lint-groups", "--list-lint-group=uber2", "--diff-lint-groups=uber1,uber2", "--generate-ignores"}
		i := c.N("first", len(m))
		j := (i + 1 + c.N("second", len(m)-1)) % len(m)
		l.Args = []string{"lint", m[i], m[j]}
	case "many":
		l.Args = append(one([]string{"files"}, []string{"compile"}, []string{"lint"}, []string{"format", "-w"}, []string{"generate"}, []string{"all"}, []string{"descriptor-set", "-o", "set.bin"},
			[]string{"break", "check"}, []string{"x", "inspect", "packages"}, []string{"config", "init"}, []string{"cache", "update"}), ".", "more")
	case "none":
		l.Args = one([]string{"create"}, []string{"break", "descriptor-set"}, []string{"x", "inspect", "package-deps"}, []string{"x", "inspect", "package-importers"})
	case "unknown":
		l.Args = append(one([]string{"files"}, []string{"compile"}, []string{"lint"}, []string{"format", "-w"}, []string{"generate"}, []string{"all"}, []string{"create", "new.proto"}, []string{"config", "init"}, []string{"cache", "delete"},
			[]string{"nosuch"}), "--no-such-flag")
	case "value":
		l.Args = append(one([]string{"files"}, []string{"compile"}, []string{"lint"}, []string{"format", "-w"}, []string{"generate"}, []string{"all"}),
			one([]string{"--walk-timeout=5"}, []string{"--walk-timeout=soon"}, []string{"--config-data={"}, []string{`--config-data={"nosuch":1}`}, []string{`--config-data={"generate":{"plugins":[{"name":"go"}]}}`},
				[]string{"--debug=perhaps"}, []string{`--config-data={"lint":{"rules":{"add":["A"],"remove":["A"]}}}`})...)
	case "config":
		l.Args = one([]string{"files"}, []string{"compile"}, []string{"lint"}, []string{"format", "-w"}, []string{"format", "-f", "-w"}, []string{"generate"}, []string{"all"}, []string{"create", "new.proto"},
			[]string{"descriptor-set", "-o", "set.bin"}, []string{"break", "descriptor-set", "-o", "set.bin"}, []string{"x", "inspect", "packages"})
		bad := c.Pick("config",
			`{"excludes":["."]}`, `{"excludes":["..", "a"]}`, `{"excludes":["/elsewhere"]}`,
			`{"generate":{"plugins":[{"name":"alpha","type":"rust","output":"gen"}]}}`,
			`{"generate":{"plugins":[{"name":"alpha"}]}}`,
			`{"generate":{"plugins":[{"name":"alpha","output":"gen","file_suffix":".jar"}]}}`,
			`{"generate":{"plugins":[{"name":"alpha","output":"gen","include_imports":true}]}}`,
			`{"generate":{"plugins":[{"name":"alpha","output":"gen","include_source_info":true}]}}`,
			`{"generate":{"plugins":[{"name":"protoc-gen-alpha","output":"gen"}]}}`,
			`{"generate":{"plugins":[{"name":"alpha","output":"gen","type":"go"}]}}`,
			`{"create":{"packages":[{"directory":"","name":"x"}]}}`, `{"create":{"packages":[{"directory":"a","name":""}]}}`, `{"create":{"packages":[{"directory":"/a","name":"x"}]}}`,
			`{"lint":{"file_header":{"path":"HEADER","content":"x"}}}`, `{"lint":{"file_header":{"path":"/HEADER"}}}`, `{"lint":{"file_header":{"path":"nosuchheader"}}}`,
			`{"lint":{"rules":{"add":["MESSAGE_NAMES_CAMEL_CASE"],"remove":["message_names_camel_case"]}}}`,
			`{"lint":{"allow_suppression":true}}`,
			`{"lint":{"group":["uber2"]}}`, `{"nosuchkey":{}}`, `{"protoc":{"includes":"a"}}`, `{"protoc":`, `[]`, `"text"`)
		if c.P("data", 0.4) {
			l.Args = append(l.Args, "--config-data="+bad)
			break
		}
		how := c.N("where", 3)
		switch {
		case how == 0: // two of them
			l.P.CfgName = "prototool.json"
			l.P.Extra["prototool.json"] = "{}\n"
			l.P.Extra["prototool.yaml"] = c.Pick("other", "", "{}\n", "protoc:\n  version: 3.9.2\n")
		case how == 1:
			l.P.CfgName, l.P.Config = "prototool.json", bad+"\n"
		default:
			// JSON is YAML
			l.P.CfgName, l.P.Config = "prototool.yaml", bad+"\n"
		}
		if how == 0 {
			l.P.Config = "{}\n"
		}
	case "protoc":
		l.Own = true
		l.Args = append(one([]string{"compile"}, []string{"generate"}, []string{"all"}, []string{"format", "-w"}, []string{"descriptor-set", "-o", "set.bin"}, []string{"cache", "update"}),
			one([]string{"--protoc-bin-path=/opt/protoc/bin/protoc"}, []string{"--protoc-wkt-path=/opt/protoc/include"},
				[]string{"--protoc-bin-path=/opt/protoc/bin/protoc", "--protoc-wkt-path=/opt/protoc/include", "--protoc-url=" + URL("3.10.1")},
				[]string{"--protoc-bin-path=/opt/protoc/bin/protoc", "--protoc-wkt-path=/opt/protoc/nosuch"},
				[]string{"--protoc-bin-path=/opt/protoc/bin/nosuch", "--protoc-wkt-path=/opt/protoc/include"},
				[]string{"--protoc-bin-path=/opt/protoc/bin/protoc", "--protoc-wkt-path=/opt/protoc/bin"},
				[]string{"--protoc-url=ftp://example.com/protoc.zip"}, []string{"--protoc-url=" + URL("1.2.3")}, []string{"--protoc-url=file:///nosuch.zip"})...)
	}
}

func init() {
	for _, prop := range []string{"C13", "C19"} {
		prop := prop
		register(prop, "usage", 1, func(c *Ctx) {
			g := c.Rig(LoadOpts{Only: []string{"files"}, Proj: &ProjOpts{Unformatted: 0.9, Plugins: 2, MaxDirs: 3, MaxFiles: 2}})
			c.misuse(g.L)
			s := g.Machine("a", Quiet(c.Swarm("a")))
			before := userTree(s)
			r := s.Do("a", RunOpts{Walk: "default"}, g.L.Args...)
			if r.OK() {
				c.Violate(prop+".usage", "not all of what %q asks for can be done, but %s", strings.Join(g.L.Args, " "), r.Desc())
				return
			}
			if d := Diff(before, userTree(s)); len(d) > 0 {
				c.Violate(prop+".usage", "%q cannot be done, but it changed %s", strings.Join(g.L.Args, " "), d)
			}
			c.Hit("usage_refused")
		})
	}
}
