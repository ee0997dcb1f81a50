//go:build go1.25

package harness

import (
	"encoding/json"
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"gopkg.in/yaml.v2"

	"verif.local/sim/kern"
)

// ProjOpts says what a generated project may contain.
type ProjOpts struct {
	Errors      float64 // probability that a file has a compile problem
	Unformatted float64 // probability that a file is not formatted
	LintFail    float64
	Plugins     int // upper bound
	Excludes    bool
	MaxDirs     int
	MaxFiles    int // per directory
	NoRoot      bool
	Silent      bool // protoc may fail without saying anything
	Version     string
	GoPlugin    bool
	NoSilent    bool
	Service     bool
	GenOdd      bool // plugins that fail or make noise
	Rich        bool // unusual configurations
	NoShared    bool // no includes from outside of the project
	NoGroup     bool // no whole lint group, which mostly fails
}

// Plug is a configured plugin.
type Plug struct {
	Name, Mode, Only, Output, Type, Suffix, Flags, Path string
	Missing, Imports, Source                            bool
}

// Proj is a generated project. Paths are relative to its root.
type Proj struct {
	Root     string
	Config   string
	CfgName  string
	Files    map[string]string // protos
	Old      map[string]bool   // unformatted
	Bad      map[string]string // problem by file
	LintBad  map[string]bool
	Excluded map[string]bool
	Plugins  []Plug
	Extra    map[string]string // other files
	Outside  map[string]string // files outside of the project, absolute
	Unused   bool              // unused imports are allowed
	SubInc   string            // a directory that is an include path
	Lib      bool              // protos may import lib/lib.proto from outside
}

var dirPool = []string{".", "foo", "foobar", "foo/bar", "a", "a/b", "ab", "z/deep/er", "foo.v1", "vendor/x"}

func camel(s string) string {
	out := ""
	up := true
	for _, r := range s {
		if r == '_' || r == '/' || r == '.' || r == '-' {
			up = true
			continue
		}
		if up {
			out += strings.ToUpper(string(r))
		} else {
			out += string(r)
		}
		up = false
	}
	return out
}

func pkgOf(dir string) string {
	if dir == "." {
		return "top"
	}
	return strings.NewReplacer("/", ".", "foo.v1", "foov1").Replace(dir)
}

// Proj generates a project.
func (c *Ctx) Proj(key string, o ProjOpts) *Proj {
	p := &Proj{Root: Work, Files: map[string]string{}, Old: map[string]bool{}, Bad: map[string]string{}, LintBad: map[string]bool{}, Excluded: map[string]bool{}, Extra: map[string]string{}, Outside: map[string]string{}}
	header, ignores := "", false
	var includes []string
	if o.Rich {
		if !o.NoShared && c.P(key+"/lib", 0.2) {
			p.Lib = true
			p.Outside["/work/shared/lib/lib.proto"] = "syntax = \"proto3\";\n\npackage lib;\n\nmessage Lib {\n  string id = 1;\n}\n"
			p.Outside["/work/shared/other/unused.proto"] = "syntax = \"proto3\";\n\npackage other;\n"
		}
		if p.Lib {
			includes = append(includes, "../shared")
		}
		if !o.NoShared && c.P(key+"/inc", 0.4) {
			for i := c.N(key+"/includes", 4); i >= 0; i-- {
				d := fmt.Sprintf("more%d", i)
				p.Outside["/work/"+d+"/"+d+".proto"] = "syntax = \"proto3\";\n\npackage " + d + ";\n"
				includes = append(includes, "../"+d)
			}
		}
		if c.P(key+"/incroot", 0.15) {
			includes = append(includes, c.Pick(key+"/incrootas", ".", "./"))
		}
		p.Unused = c.P(key+"/unused", 0.15)
		if c.P(key+"/header", 0.15) {
			header = c.Pick(key+"/headertext", "Copyright Somebody", "Copyright\n\nAll rights reserved.\n")
			p.Extra["HEADER"] = header
		}
		ignores = c.P(key+"/ignores", 0.3)
		if c.P(key+"/noise", 0.3) {
			p.Extra["README.md"] = "# read me\n"
			p.Extra["docs/old.proto.bak"] = "not a proto\n"
			p.Extra["docs/proto"] = "nor this\n"
		}
	}
	if o.MaxDirs == 0 {
		o.MaxDirs = 5
	}
	if o.MaxFiles == 0 {
		o.MaxFiles = 3
	}
	if o.NoRoot && o.MaxDirs > len(dirPool)-1 {
		o.MaxDirs = len(dirPool) - 1
	}
	if o.MaxDirs > len(dirPool) {
		o.MaxDirs = len(dirPool)
	}
	n := 1 + c.N(key+"/dirs", o.MaxDirs)
	pool := append([]string(nil), dirPool...)
	if o.NoRoot {
		pool = pool[1:]
	}
	var dirs []string
	for i := 0; i < n; i++ {
		j := c.N(fmt.Sprintf("%s/dir%d", key, i), len(pool))
		dirs = append(dirs, pool[j])
		pool = append(pool[:j:j], pool[j+1:]...)
	}
	sort.Strings(dirs)
	mix, valMix := 0.0, 0.5
	if o.Rich {
		mix = []float64{0.05, 0, 0.6}[c.N(key+"/pkgmix", 3)]
		valMix = []float64{0.5, 1}[c.N(key+"/optmix", 2)]
	}
	// an include path within the project: its files and the others do not see each other
	sub := ""
	if o.Rich && !o.Service && len(includes) == 0 && dirs[0] != "." && c.P(key+"/subinc", 0.15) {
		sub = dirs[c.N(key+"/subincdir", len(dirs))]
		includes = append(includes, sub)
		p.SubInc = sub
		c.Hit("proj.subinc")
	}
	type msg struct{ file, pkg, name string }
	var known []msg
	tok := 0
	large := ""
	if o.Rich && c.P(key+"/large", 0.06) {
		large = dirs[c.N(key+"/largedir", len(dirs))]
		c.Hit("proj.large")
	}
	for _, d := range dirs {
		m := 1 + c.N(key+"/files/"+d, o.MaxFiles)
		if d == large {
			m += 5 + c.N(key+"/largefiles", 30)
		}
		for i := 0; i < m; i++ {
			name := fmt.Sprintf("f%02d.proto", i)
			if i < 4 {
				name = []string{"one.proto", "two.proto", "three.proto", "four.proto"}[i]
			}
			if i == 1 && c.P(key+"/twin/"+d, 0.15) {
				name = "zone.proto" // ends like one.proto
			}
			rel := path.Join(d, name)
			fk := key + "/" + rel
			virt := rel // what protoc calls it
			if sub != "" && under(rel, sub) {
				virt = strings.TrimPrefix(rel, sub+"/")
			}
			pkg := pkgOf(d)
			if mix > 0 && c.P(fk+"/pkg2", mix) {
				pkg = []string{"alt." + pkg, pkg + "x", "other." + pkg, pkg + ".v2"}[c.N(fk+"/pkg2which", 4)]
			}
			mn := "M" + camel(strings.TrimSuffix(rel, ".proto"))
			tok++
			var imports []string
			var fields []string
			fields = append(fields, "string id = 1;")
			num := 2
			if c.P(fk+"/wkt", 0.3) {
				w := c.N(fk+"/wktwhich", 3)
				imports = append(imports, "google/protobuf/"+[]string{"timestamp", "duration", "any"}[w]+".proto")
				fields = append(fields, fmt.Sprintf("google.protobuf.%s w = %d;", []string{"Timestamp", "Duration", "Any"}[w], num))
				num++
			}
			if len(known) > 0 && c.P(fk+"/imp", 0.35) {
				k := known[c.N(fk+"/impwhich", len(known))]
				name := k.file
				if virt != rel && under(name, sub) {
					name = strings.TrimPrefix(name, sub+"/")
				}
				if sub == "" || (virt != rel) == under(k.file, sub) {
					imports = append(imports, name)
					ref := k.name
					if k.pkg != pkg {
						ref = "." + k.pkg + "." + k.name
						ref = strings.TrimPrefix(ref, ".")
					}
					fields = append(fields, fmt.Sprintf("%s ref = %d;", ref, num))
					num++
				}
			}
			if p.Lib && c.P(fk+"/lib", 0.4) {
				imports = append(imports, "lib/lib.proto")
				fields = append(fields, fmt.Sprintf("lib.Lib lib = %d;", num))
				num++
			}
			bad := ""
			var head []string
			if o.Errors > 0 && c.P(fk+"/bad", o.Errors) {
				kinds := []string{"type", "directive", "unused", "missing", "odd", "two", "many", "known", "known", "known"}
				if o.Silent {
					kinds = append(kinds, "exit", "consequence")
				}
				bad = kinds[c.N(fk+"/badkind", len(kinds))]
				t := fmt.Sprintf("TOK%dx", tok)
				switch bad {
				case "type":
					fields = append(fields, fmt.Sprintf("Undef%s bad = %d;", t, num))
				case "directive":
					head = append(head, fmt.Sprintf("// @protoc %s:%d:%d: Something is wrong with %s.", virt, 1+c.N(fk+"/l", 30), 1+c.N(fk+"/c", 9), t))
				case "unused":
					imports = append(imports, "google/protobuf/empty.proto")
				case "missing":
					imports = append(imports, "nope/"+t+".proto")
				case "odd":
					head = append(head, fmt.Sprintf("// @protoc protoc says something unusual about %s", t))
				case "two":
					at := [][4]int{{9, 2, 10, 1}, {9, 12, 9, 3}, {12, 1, 9, 7}, {9, 2, 9, 2}}[c.N(fk+"/two", 4)]
					head = append(head, fmt.Sprintf("// @protoc %s:%d:%d: Second to one %s.", virt, at[0], at[1], t), fmt.Sprintf("// @protoc %s:%d:%d: First of two %s.", virt, at[2], at[3], t))
				case "many":
					for i, n := 0, []int{25, 60, 130}[c.N(fk+"/many", 3)]; i < n; i++ {
						head = append(head, fmt.Sprintf("// @protoc %s:%d:%d: Number %d of %s.", virt, 1+i*7%n/3, 1+i%3, i, t))
					}
					if c.P(fk+"/long", 0.3) {
						head = append(head, fmt.Sprintf("// @protoc %s:1:1: Long %s%s.", virt, strings.Repeat("x", 70000), t))
					}
				case "known":
					var droppable bool
					for i, n := 0, 1+c.N(fk+"/knownn", 3); i < n; i++ {
						l, un := knownLine(c, fmt.Sprintf("%s/known%d", fk, i), virt, t)
						head = append(head, "// @protoc "+l)
						droppable = i == 0 && un || droppable && un
					}
					if droppable {
						bad = "unused"
					}
				case "consequence":
					// only what prototool drops as the consequence of another failure
					head = append(head, fmt.Sprintf("// @protoc %s: Import \"x/y.proto\" was not found or had errors.", virt), fmt.Sprintf("// @protoc-exit %d", 2+tok%60))
				case "exit":
					head = append(head, fmt.Sprintf("// @protoc-exit %d", 2+tok%60))
				}
				if (bad == "directive" || bad == "odd" || bad == "two" || bad == "many") && c.P(fk+"/conseq", 0.25) {
					head = append([]string{fmt.Sprintf("// @protoc %s: Import \"x/z.proto\" was not found or had errors.", virt)}, head...)
				}
				if bad != "unused" || !p.Unused {
					p.Bad[rel] = bad
				}
			}
			var b strings.Builder
			for _, h := range head {
				b.WriteString(h + "\n")
			}
			if len(head) > 0 {
				b.WriteString("\n")
			}
			b.WriteString("syntax = \"proto3\";\n\npackage " + pkg + ";\n\n")
			sort.Strings(imports)
			for _, im := range imports {
				fmt.Fprintf(&b, "import \"%s\";\n", im)
			}
			if len(imports) > 0 {
				b.WriteString("\n")
			}
			msgName := mn
			if o.LintFail > 0 && c.P(fk+"/lint", o.LintFail) {
				p.LintBad[rel] = true
				msgName = "bad_" + strings.ToLower(mn)
			}
			ind, gap := "  ", ""
			if o.Unformatted > 0 && c.P(fk+"/unf", o.Unformatted) {
				p.Old[rel] = true
				ind = []string{"    ", "\t", " "}[c.N(fk+"/ind", 3)]
				gap = "\n\n"
			}
			rich := o.Rich && c.P(fk+"/rich", 0.4)
			var tail []string
			if rich {
				var opts []string
				if c.P(fk+"/opts", 0.6) {
					for _, x := range []string{"java_package", "go_package", "java_outer_classname", "csharp_namespace"} {
						if c.P(fk+"/opt/"+x, valMix) {
							opts = append(opts, fmt.Sprintf("option %s = \"%s\";", x, c.Pick(fk+"/optval/"+x, "com.example."+pkg, "One", "com.other")))
						}
					}
					if c.P(fk+"/opt/multi", 0.4) {
						opts = append(opts, "option java_multiple_files = "+c.Pick(fk+"/multi", "true", "false")+";")
					}
					for _, x := range opts {
						b.WriteString(x + "\n")
					}
					b.WriteString("\n")
				}
				if c.P(fk+"/enum", 0.6) {
					n := 1 + c.N(fk+"/enumn", 4)
					x := fmt.Sprintf("enum E%s {\n", mn)
					for j := 0; j < n; j++ {
						x += fmt.Sprintf("  E%s_V%d = %d;\n", strings.ToUpper(mn), j, j)
					}
					tail = append(tail, x+"}\n")
					fields = append(fields, fmt.Sprintf("E%s e = 20;", mn))
				}
				if c.P(fk+"/oneof", 0.4) {
					fields = append(fields, "oneof either {\n    string left = 21;\n    int64 right = 22;\n  }")
				}
				if c.P(fk+"/map", 0.3) {
					fields = append(fields, "map<string, int64> counts = 23;", "repeated string names = 24;")
				}
				if c.P(fk+"/nested", 0.4) {
					fields = append(fields, "message Inner {\n    // deep\n    string value = 1;\n    enum Kind {\n      KIND_NONE = 0;\n      KIND_SOME = 1;\n    }\n    Kind kind = 2;\n  }", "Inner inner = 25;")
				}
				if c.P(fk+"/second", 0.5) {
					tail = append(tail, fmt.Sprintf("// Second%s is another one.\nmessage Second%s {\n  %s first = 1;\n}\n", mn, mn, msgName))
				}
				if c.P(fk+"/svc", 0.5) {
					tail = append(tail, fmt.Sprintf("service Api%s {\n  rpc Get(%s) returns (%s);\n  rpc Watch(%s) returns (stream %s) {\n    option deprecated = true;\n  }\n}\n", mn, msgName, msgName, msgName, msgName))
				}
			}
			b.WriteString(gap)
			fmt.Fprintf(&b, "message %s {\n", msgName)
			for _, f := range fields {
				b.WriteString(ind + f + "\n")
			}
			b.WriteString("}\n")
			for _, x := range tail {
				b.WriteString("\n" + x)
			}
			if o.Service && i == 0 {
				fmt.Fprintf(&b, "\nservice S%s {\n  rpc Get(%s) returns (%s);\n}\n", mn, msgName, msgName)
			}
			p.Files[rel] = b.String()
			if (bad == "" || bad == "type" && c.P(fk+"/share", 0.3)) && !strings.HasPrefix(msgName, "bad_") {
				known = append(known, msg{rel, pkg, msgName})
			}
		}
	}
	// configuration
	version := o.Version
	if version == "" {
		version = DefaultVer
	}
	var excl []string
	if o.Excludes {
		for _, d := range dirs {
			if d != "." && c.P(key+"/excl/"+d, 0.2) {
				excl = append(excl, d)
			}
		}
		// imports of excluded files still resolve through the include path
		for f := range p.Files {
			for _, e := range excl {
				if under(f, e) {
					p.Excluded[f] = true
				}
			}
		}
		if len(p.Excluded) == len(p.Files) {
			excl = nil
			p.Excluded = map[string]bool{}
		}
	}
	if o.Plugins > 0 {
		k := c.N(key+"/plugins", o.Plugins+1)
		sets := false
		for i := 0; i < k; i++ {
			pk := fmt.Sprintf("%s/plug%d", key, i)
			pl := Plug{Name: []string{"alpha", "beta", "gamma", "delta"}[i], Mode: "ok"}
			pl.Output = c.Pick(pk+"/out", "gen/"+pl.Name, "gen/shared", "out/x/y")
			if o.Rich && c.P(pk+"/far", 0.15) {
				pl.Output = c.Pick(pk+"/farout", "/work/elsewhere/gen", "../elsewhere/"+pl.Name, "/opt/gen/"+pl.Name+"/")
			}
			if c.P(pk+"/flags", 0.3) {
				pl.Flags = "opt=" + pl.Name
			}
			if o.GoPlugin && c.P(pk+"/go", 0.5) {
				pl.Type = c.Pick(pk+"/gotype", "go", "gogo")
			}
			if o.Rich && c.P(pk+"/odd", 0.3) {
				switch c.N(pk+"/kind", 3) {
				case 0:
					pl.Path = "/opt/tools/" + pl.Name + "-v2"
				case 1:
					pl.Suffix = pl.Name + ".jar"
				case 2:
					if !sets {
						sets = true
						pl.Suffix = "bin"
						pl.Type, pl.Flags = "", ""
						pl.Name = "descriptor_set"
						pl.Imports, pl.Source = c.P(pk+"/imports", 0.5), c.P(pk+"/source", 0.5)
					}
				}
			}
			if o.GenOdd && pl.Name != "descriptor_set" {
				pl.Mode = []string{"ok", "exit", "noise", "error", "slow", "garbage", "crash", "ok"}[c.N(pk+"/mode", 8)]
				if pl.Mode != "ok" && c.P(pk+"/only", 0.5) {
					fs := p.Selected(".")
					pl.Only = fs[c.N(pk+"/onlywhich", len(fs))]
				}
				if c.P(pk+"/missing", 0.1) {
					pl.Missing = true
				}
			}
			if o.Rich && i > 0 && pl.Type == "" && c.P(pk+"/again", 0.15) {
				// the one before it once more, with an output of its own
				if q := p.Plugins[i-1]; q.Suffix == "" && q.Type == "" {
					q.Output, q.Flags = fmt.Sprintf("gen/again%d", i), c.Pick(pk+"/againflags", "", "x=1", q.Flags)
					pl = q
				}
			}
			p.Plugins = append(p.Plugins, pl)
		}
	}
	p.CfgName = "prototool.yaml"
	var b strings.Builder
	fmt.Fprintf(&b, "protoc:\n  version: %s\n", version)
	if len(includes) > 0 {
		b.WriteString("  includes:\n")
		for _, d := range includes {
			b.WriteString("    - " + d + "\n")
		}
	}
	if p.Unused {
		b.WriteString("  allow_unused_imports: true\n")
	}
	if o.Rich && len(excl) > 0 && c.P(key+"/subcfg", 0.3) {
		p.Extra[excl[0]+"/prototool.yaml"] = "protoc:\n  version: 3.9.2\nlint:\n  group: google\n"
	}
	if len(excl) > 0 {
		b.WriteString("excludes:\n")
		for _, e := range excl {
			b.WriteString("  - " + e + "\n")
		}
	}
	b.WriteString("lint:\n")
	if header != "" {
		b.WriteString("  file_header:\n    path: HEADER\n")
	}
	if ignores {
		for _, f := range p.Selected(".") {
			if p.LintBad[f] {
				fmt.Fprintf(&b, "  ignores:\n    - id: MESSAGE_NAMES_CAMEL_CASE\n      files:\n        - %s\n", f)
				break
			}
		}
	}
	group := ""
	if o.Rich && !o.NoGroup && c.P(key+"/group", 0.2) {
		group = c.Pick(key+"/groupname", "uber2", "google", "uber1")
	}
	if group != "" {
		fmt.Fprintf(&b, "  group: %s\n", group)
		if c.P(key+"/groupadd", 0.5) {
			b.WriteString("  rules:\n    add:\n      - MESSAGE_NAMES_CAMEL_CASE\n    remove:\n      - FILE_OPTIONS_REQUIRE_GO_PACKAGE\n")
		}
	} else {
		b.WriteString("  rules:\n    no_default: true\n    add:\n      - MESSAGE_NAMES_CAMEL_CASE\n      - MESSAGE_NAMES_CAPITALIZED\n")
		if o.Rich && o.LintFail > 0 && c.P(key+"/samedir", 0.4) {
			b.WriteString("      - PACKAGES_SAME_IN_DIR\n      - FILE_OPTIONS_JAVA_PACKAGE_SAME_IN_DIR\n      - FILE_OPTIONS_GO_PACKAGE_SAME_IN_DIR\n")
		}
	}
	if len(p.Plugins) > 0 {
		b.WriteString("generate:\n  go_options:\n    import_path: example.com/p\n")
		if o.GoPlugin {
			b.WriteString("    extra_modifiers:\n      x/one.proto: example.com/x\n      y/two.proto: example.com/y\n      z/three.proto: example.com/z\n")
		}
		b.WriteString("  plugins:\n")
		for _, pl := range p.Plugins {
			fmt.Fprintf(&b, "    - name: %s\n      output: %s\n", pl.Name, pl.Output)
			if pl.Type != "" {
				fmt.Fprintf(&b, "      type: %s\n", pl.Type)
			}
			if pl.Flags != "" {
				fmt.Fprintf(&b, "      flags: %s\n", pl.Flags)
			}
			if pl.Suffix != "" {
				fmt.Fprintf(&b, "      file_suffix: %s\n", pl.Suffix)
			}
			if pl.Path != "" {
				fmt.Fprintf(&b, "      path: %s\n", pl.Path)
			}
			if pl.Imports {
				b.WriteString("      include_imports: true\n")
			}
			if pl.Source {
				b.WriteString("      include_source_info: true\n")
			}
		}
	}
	p.Config = b.String()
	if o.Rich && c.P(key+"/json", 0.2) {
		p.CfgName = "prototool.json"
		p.Config = yamlToJSON(p.Config)
	}
	return p
}

// yamlToJSON rewrites a configuration.
func yamlToJSON(s string) string {
	var v interface{}
	if err := yaml.Unmarshal([]byte(s), &v); err != nil {
		panic(err)
	}
	var conv func(v interface{}) interface{}
	conv = func(v interface{}) interface{} {
		switch v := v.(type) {
		case map[interface{}]interface{}:
			m := map[string]interface{}{}
			for k, x := range v {
				m[fmt.Sprint(k)] = conv(x)
			}
			return m
		case []interface{}:
			for i := range v {
				v[i] = conv(v[i])
			}
		}
		return v
	}
	b, err := json.Marshal(conv(v))
	if err != nil {
		panic(err)
	}
	return string(b) + "\n"
}

// Put writes the project and its plugins to a machine.
func (p *Proj) Put(s *Sim) {
	s.Write(p.Root, p.Files)
	s.Write(p.Root, p.Extra)
	s.Write("/", p.Outside)
	if p.CfgName != "" {
		s.Write(p.Root, map[string]string{p.CfgName: p.Config})
	}
	for _, pl := range p.Plugins {
		if !pl.Missing {
			b := pl.Mode
			if pl.Only != "" {
				b += " " + pl.Only
			}
			if pl.Path != "" {
				s.K.FS.Put(pl.Path, kern.Image("plugin "+pl.Name+" "+b, ""), 0755)
			} else if pl.Name != "descriptor_set" {
				s.Plugin(pl.Name, b)
			}
		}
	}
}

// exclude adds lines to the excluded files of a configuration in YAML.
func (p *Proj) exclude(x string) {
	if strings.Contains(p.Config, "excludes:\n") {
		p.Config = strings.Replace(p.Config, "excludes:\n", "excludes:\n"+x, 1)
	} else {
		p.Config += "excludes:\n" + x
	}
}

// Selected lists the files below a directory that are not excluded, relative to the root, sorted.
func (p *Proj) Selected(dir string) []string {
	var out []string
	for f := range p.Files {
		if !p.Excluded[f] && (dir == "." || under(f, dir)) {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}

// Dirs lists the directories of files.
func Dirs(files []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, f := range files {
		d := path.Dir(f)
		if !seen[d] {
			seen[d] = true
			out = append(out, d)
		}
	}
	sort.Strings(out)
	return out
}

// Args lists directories usable as a command argument: each contains a selected file.
func (p *Proj) Args() []string {
	seen := map[string]bool{".": true}
	out := []string{"."}
	for _, f := range p.Selected(".") {
		for d := path.Dir(f); d != "."; d = path.Dir(d) {
			if !seen[d] {
				seen[d] = true
				out = append(out, d)
			}
		}
	}
	sort.Strings(out)
	return out
}

// Describe summarises the project for the evidence.
func (p *Proj) Describe() string {
	var fs []string
	for f := range p.Files {
		t := f
		if b := p.Bad[f]; b != "" {
			t += "(" + b + ")"
		}
		if p.Old[f] {
			t += "(unformatted)"
		}
		if p.Excluded[f] {
			t += "(excluded)"
		}
		fs = append(fs, t)
	}
	sort.Strings(fs)
	var pl []string
	for _, x := range p.Plugins {
		pl = append(pl, x.Name+":"+x.Mode+"->"+x.Output)
	}
	return "files " + strings.Join(fs, " ") + "; plugins " + strings.Join(pl, " ")
}

// knownLine gives a line that some version of protoc prints about file, and whether it is about an unused import.
func knownLine(c *Ctx, key, file, t string) (line string, unused bool) {
	at := fmt.Sprintf("%s:%d:%d", file, 1+c.N(key+"/l", 30), 1+c.N(key+"/c", 9))
	f := file
	if c.P(key+"/pos", 0.5) {
		f = at
	}
	switch c.N(key, 16) {
	case 0:
		return "[libprotobuf WARNING google/protobuf/compiler/parser.cc:562] No syntax specified for the proto file: " + file + ". Please use 'syntax = \"proto2\";' or 'syntax = \"proto3\";' to specify a syntax version. (Defaulted to proto2 syntax.)", false
	case 1:
		return f + ": warning: Import x/" + t + ".proto but not used.", true
	case 2:
		return at + ": warning: Import x/" + t + ".proto is unused.", true
	case 3:
		return f + ": File recursively imports itself: " + file + " -> x/" + t + ".proto -> " + file, false
	case 4:
		return f + ": Explicit default values are not allowed in proto3.", false
	case 5:
		return f + ": The JSON camel-case name of field \"" + t + "\" conflicts with field \"other\". This is not allowed in proto3.", false
	case 6:
		return f + ": \"" + t + "\" is not defined.", false
	case 7:
		return f + ": \"" + t + "\" seems to be defined in \"x/y.proto\", which is not imported by \"" + file + "\". To use it here, please add the necessary import.", false
	case 8:
		return f + ": Error while parsing option value for \"" + t + "\": Expected identifier.", false
	case 9:
		return f + ": The first enum value must be zero in proto3.", false
	case 10:
		return t + ": warning: directory does not exist.", false
	case 11:
		return "protoc-gen-" + t + ": program not found or is not executable", false
	case 12:
		return "wrote to standard error " + t + "--go_out: protoc-gen-go: Plugin failed with status code 1.", false
	case 13:
		return file + ":" + t + ":3: is no line", false
	case 14:
		return file + ":3:" + t + ": is no column", false
	}
	return t + ":3:4:", false
}

// unusedLine tells whether a line of protoc's is about an import that is not used.
func unusedLine(l string) bool {
	return strings.HasSuffix(l, " is unused.") || strings.HasSuffix(l, " but not used.")
}

// OutDir is where a plugin writes.
func (p *Proj) OutDir(pl Plug) string {
	if path.IsAbs(pl.Output) {
		return path.Clean(pl.Output)
	}
	return path.Join(p.Root, pl.Output)
}

// relTo gives the path that leads from a directory to another path.
func relTo(dir, p string) string {
	r, err := filepath.Rel(dir, p)
	if err != nil {
		panic(err)
	}
	return r
}
