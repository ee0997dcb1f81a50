//go:build go1.25

package harness

import (
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"google.golang.org/grpc/codes"

	"verif.local/sim/kern"
	"verif.local/sim/progs"
)

// Load is one command on one project.
type Load struct {
	Name    string
	Args    []string
	P       *Proj
	Prev    map[string]string // tree of the git branch, or of the previous descriptor set
	Stdin   string
	HasIn   bool
	Extra   func(s *Sim)
	GRPC    func(s *Sim) *GServer
	Out     string   // named output file
	Writes  []string // paths (files or directories) that it may write, below the project root unless absolute
	InPlace bool     // may rewrite protos
	Tmp     bool     // leaves the --tmp file
	NoCache bool     // does not use protoc
	Help    bool
	Cwd     string
	Sub     string // directory that is selected, below the project root, or "."
	File    string // the file that is selected, if the argument is one
	Env     map[string]string
	Own     bool // it is to use the user's own protoc
	Label   string
	Branch  string // of git, which a break check compares with
}

// Rewritable lists the protos that the command may rewrite, relative to the project root.
func (l *Load) Rewritable() []string {
	if !l.InPlace {
		return nil
	}
	if l.File != "" {
		return []string{l.File}
	}
	return l.P.Selected(l.Sub)
}

// LoadOpts limits the choice.
type LoadOpts struct {
	Only   []string
	Except []string
	Errors float64
	Proj   *ProjOpts
	On     *Proj // an existing project, which is left as it is
}

// AllLoads names every kind of command.
var AllLoads = []string{
	"files", "files-arg", "compile", "compile-arg", "compile-dry", "lint", "lint-ignores", "lint-list", "lint-groups", "lint-diff",
	"format", "format-d", "format-l", "format-w", "format-fw", "format-file", "generate", "generate-dry", "all", "all-nofmt",
	"ds", "ds-json", "ds-out", "ds-tmp", "break-git", "break-ds", "break-out", "inspect", "inspect-deps", "inspect-imp",
	"create", "init", "init-dir", "cache-update", "cache-delete", "version", "version-json", "help", "grpc",
	"compile-file", "lint-file", "generate-file", "all-file", "ds-file", "files-file",
	"all-fix", "all-nolint", "ds-json-out", "create-pkg", "init-doc", "grpc-data", "break-json", "create-nodir",
}

// movable commands may run in any directory of the project.
var movable = map[string]bool{"files": true, "files-arg": true, "compile": true, "compile-arg": true, "compile-dry": true, "lint": true, "lint-ignores": true,
	"format": true, "format-d": true, "format-l": true, "format-w": true, "format-fw": true, "format-file": true, "generate": true, "generate-dry": true,
	"all": true, "all-nofmt": true, "all-fix": true, "all-nolint": true, "ds": true, "ds-json": true, "ds-tmp": true, "inspect": true,
	"compile-file": true, "lint-file": true, "generate-file": true, "all-file": true, "ds-file": true, "files-file": true}

// reports are the commands that print failures.
var reports = map[string]bool{"compile": true, "compile-arg": true, "lint": true, "format-l": true, "generate": true, "all": true, "all-nofmt": true, "all-nolint": true, "all-fix": true,
	"break-git": true, "break-ds": true, "compile-file": true, "lint-file": true, "generate-file": true, "all-file": true}

const grpcProto = `syntax = "proto3";

package rpc;

message Req {
  string value = 1;
  int64 n = 2;
}

message Res {
  string value = 1;
  int64 n = 2;
}

service S {
  rpc Unary(Req) returns (Res);
  rpc Client(stream Req) returns (Res);
  rpc Server(Req) returns (stream Res);
  rpc Bidi(stream Req) returns (stream Res);
}
`

// Load generates a command and its project.
func (c *Ctx) Load(key string, o LoadOpts) *Load {
	names := o.Only
	if names == nil {
		for _, n := range AllLoads {
			if !contains(o.Except, n) {
				names = append(names, n)
			}
		}
	}
	l := &Load{Name: names[c.N(key+"/cmd", len(names))]}
	po := ProjOpts{Errors: o.Errors, Unformatted: 0.5, LintFail: []float64{0, 0, 0.3}[c.N(key+"/lintfail", 3)], Excludes: true, MaxDirs: 4, MaxFiles: 3, Rich: c.P(key+"/rich", 0.5)}
	if o.Proj != nil {
		po = *o.Proj
	}
	kind := l.Name
	if strings.HasPrefix(kind, "generate") || strings.HasPrefix(kind, "all") {
		if po.Plugins == 0 {
			po.Plugins = 3
		}
	}
	if strings.HasPrefix(kind, "grpc") || strings.HasPrefix(kind, "ds") || strings.HasPrefix(kind, "break") || strings.HasPrefix(kind, "inspect") {
		po.LintFail = 0
	}
	if strings.HasPrefix(kind, "break") {
		po.NoShared = true
	}
	if l.P = o.On; l.P == nil {
		l.P = c.Proj(key+"/p", po)
	}
	p := l.P
	sub := "."
	dirs := p.Args()
	if len(dirs) > 1 {
		sub = dirs[c.N(key+"/sub", len(dirs))]
	}
	l.Sub = "."
	at := "."
	if movable[kind] && c.P(key+"/move", 0.15) {
		at = dirs[c.N(key+"/cwd", len(dirs))]
		l.Sub = at
	}
	if at != "." {
		l.Cwd = Work + "/" + at
	}
	// spell writes a path below the project root as seen from the working directory
	spell := func(p string, dir bool) string {
		r, err := filepath.Rel(path.Join(Work, at), path.Join(Work, p))
		if err != nil {
			panic(err)
		}
		switch c.N(key+"/spell", 8) {
		case 5:
			return path.Join(Work, p)
		case 6:
			return "./" + r
		case 7:
			if dir {
				return r + "/"
			}
			return path.Join(Work, path.Dir(p)) + "/./" + path.Base(p)
		}
		return r
	}
	arg := func(a ...string) []string {
		l.Sub = sub
		if sub != at {
			return append(a, spell(sub, true))
		}
		return a
	}
	sel := p.Selected(".")
	one := sel[c.N(key+"/one", len(sel))]
	file := func(a ...string) []string {
		l.Sub = path.Dir(one)
		l.File = one
		return append(a, spell(one, false))
	}
	pkg := pkgOf(one[:max(0, strings.LastIndexByte(one, '/'))])
	if !strings.Contains(one, "/") {
		pkg = "top"
	}
	var gens []string
	for _, pl := range p.Plugins {
		gens = append(gens, pl.Output)
	}
	switch kind {
	case "files":
		l.Args = []string{"files"}
		l.NoCache = true
	case "files-arg":
		l.Args = arg("files")
		l.NoCache = true
	case "compile":
		l.Args = []string{"compile"}
	case "compile-arg":
		l.Args = arg("compile")
	case "compile-dry":
		l.Args = arg("compile", "--dry-run")
	case "lint":
		l.Args = arg("lint")
	case "lint-ignores":
		l.Args = arg("lint", "--generate-ignores")
	case "lint-list":
		l.Args = []string{"lint", c.Pick(key+"/list", "--list-linters", "--list-all-linters")}
		l.NoCache = true
	case "lint-groups":
		l.Args = []string{"lint", c.Pick(key+"/list", "--list-all-lint-groups", "--list-lint-group=uber2")}
		l.NoCache = true
	case "lint-diff":
		l.Args = []string{"lint", "--diff-lint-groups=google,uber2"}
		l.NoCache = true
	case "format":
		l.Args = arg("format")
	case "format-d":
		l.Args = arg("format", "-d")
	case "format-l":
		l.Args = arg("format", "-l")
	case "format-w":
		l.Args = arg("format", "-w")
		l.InPlace = true
	case "format-fw":
		l.Args = arg("format", "-f", "-w")
		l.InPlace = true
	case "format-file":
		m := c.N(key+"/filemode", 6)
		l.Args = file([][]string{{"format"}, {"format", "-w"}, {"format", "-d"}, {"format", "-l"}, {"format", "-w", "-f"}, {"format", "-w"}}[m]...)
		l.InPlace = m == 1 || m >= 4
	case "compile-file":
		l.Args = file("compile")
	case "files-file":
		l.Args = file("files")
		l.NoCache = true
	case "lint-file":
		l.Args = file("lint")
	case "generate-file":
		l.Args = file("generate")
		l.Writes = gens
	case "all-file":
		l.Args = file("all")
		if c.P(key+"/fix", 0.3) {
			l.Args = append(l.Args, "--fix")
		}
		l.Writes = gens
		l.InPlace = true
	case "ds-file":
		l.Args = file("descriptor-set")
	case "generate":
		l.Args = arg("generate")
		l.Writes = gens
	case "generate-dry":
		l.Args = arg("generate", "--dry-run")
	case "all":
		l.Args = arg("all")
		l.InPlace = true
		l.Writes = gens
	case "all-fix":
		l.Args = arg("all", c.Pick(key+"/fixflag", "--fix", "-f"))
		l.InPlace = true
		l.Writes = gens
	case "all-nolint":
		l.Args = arg("all", "--disable-lint")
		l.InPlace = true
		l.Writes = gens
	case "all-nofmt":
		l.Args = arg("all", "--disable-format")
		l.Writes = gens
	case "ds":
		l.Args = arg("descriptor-set")
	case "ds-json":
		l.Args = arg("descriptor-set", "--json", "--include-imports")
	case "ds-out":
		l.Args = arg("descriptor-set", "-o", "set.bin", "--include-imports", "--include-source-info")
		l.Out = Work + "/set.bin"
		l.Writes = []string{"set.bin"}
		l.before(c.N(key+"/old", 5))
	case "ds-json-out":
		l.Args = arg("descriptor-set", "--json", c.Pick(key+"/o", "-o", "--output-path"), "set.json")
		l.Out = Work + "/set.json"
		l.Writes = []string{"set.json"}
		l.before(c.N(key+"/old", 5))
	case "ds-tmp":
		l.Args = arg("descriptor-set", "--tmp")
		l.Tmp = true
	case "break-git":
		l.Branch = c.Pick(key+"/branch", "base", "base", "release/1.0", "v1.2.0", "origin/feature/x")
		l.Args = []string{"break", "check", "--git-branch", l.Branch}
		l.Prev = c.mutateTree(key+"/prev", p)
	case "break-json":
		l.Branch = "base"
		l.Args = []string{"break", "check", "--git-branch", l.Branch, "--json"}
		l.Prev = c.mutateTree(key+"/prev", p)
	case "break-ds":
		l.Args = []string{"break", "check", "--descriptor-set-path", "prev.bin"}
		l.Prev = c.mutateTree(key+"/prev", p)
	case "break-out":
		l.Args = []string{"break", "descriptor-set", "-o", "prev-out.bin"}
		l.Out = Work + "/prev-out.bin"
		l.Writes = []string{"prev-out.bin"}
		l.before(c.N(key+"/old", 5))
	case "inspect":
		l.Args = arg("x", "inspect", "packages")
	case "inspect-deps":
		l.Args = []string{"x", "inspect", "package-deps", "--name", pkg}
	case "inspect-imp":
		l.Args = []string{"x", "inspect", "package-importers", "--name", pkg}
	case "create":
		l.Args = []string{"create", "new/dir/thing.proto", "another.proto"}
		l.Writes = []string{"new", "another.proto"}
		l.NoCache = true
		l.Out = Work + "/another.proto"
		l.Extra = func(s *Sim) { s.K.FS.MkdirAll(Work + "/new/dir") }
	case "create-nodir":
		l.Args = []string{"create", "another.proto", "new/dir/thing.proto"}
		l.Writes = []string{"another.proto"}
		l.NoCache = true
	case "init":
		l.Args = []string{"config", "init"}
		p.CfgName = ""
		l.Writes = []string{"prototool.yaml"}
		l.NoCache = true
		l.Out = Work + "/prototool.yaml"
	case "create-pkg":
		l.Args = []string{"create", "new/dir/thing.proto", "another.proto", "--package", c.Pick(key+"/pkg", "some.pkg.v1", "x")}
		l.Writes = []string{"new", "another.proto"}
		l.NoCache = true
		l.Out = Work + "/another.proto"
		l.Extra = func(s *Sim) { s.K.FS.MkdirAll(Work + "/new/dir") }
	case "init-doc":
		l.Args = []string{"config", "init", "--document"}
		p.CfgName = ""
		l.Writes = []string{"prototool.yaml"}
		l.NoCache = true
		l.Out = Work + "/prototool.yaml"
	case "init-dir":
		l.Args = []string{"config", "init", "newdir", "--uncomment"}
		l.Writes = []string{"newdir"}
		l.NoCache = true
		l.Out = Work + "/newdir/prototool.yaml"
	case "cache-update":
		l.Args = []string{"cache", "update"}
	case "cache-delete":
		l.Args = []string{"cache", "delete"}
		l.NoCache = true
	case "version":
		l.Args = []string{"version"}
		l.NoCache = true
	case "version-json":
		l.Args = []string{"version", "--json"}
		l.NoCache = true
	case "help":
		l.Args = [][]string{{"help"}, {"compile", "--help"}, {"break", "--help"}, {"help", "grpc"}}[c.N(key+"/help", 4)]
		l.NoCache = true
		l.Help = true
	case "grpc", "grpc-data":
		p.Files["rpc/rpc.proto"] = grpcProto
		m := c.Pick(key+"/method", "Unary", "Client", "Server", "Bidi")
		l.Args = []string{"grpc", "--address", "srv:80", "--method", "rpc.S/" + m}
		if c.P(key+"/details", 0.3) {
			l.Args = append(l.Args, "--details")
		}
		n := 1
		if m == "Client" || m == "Bidi" {
			n = 1 + c.N(key+"/msgs", 3)
		}
		for i := 0; i < n; i++ {
			l.Stdin += fmt.Sprintf("{\"value\":\"in%d\",\"n\":\"%d\"}\n", i, i+1)
		}
		if kind == "grpc" {
			l.Args = append(l.Args, "--stdin")
			l.HasIn = true
		} else {
			l.Args = append(l.Args, "--data", l.Stdin)
			l.Stdin = ""
		}
		out := 1
		if m == "Server" || m == "Bidi" {
			out = c.N(key+"/outs", 4)
		}
		acts := []GAct{{Op: "recvall"}}
		for i := 0; i < out; i++ {
			acts = append(acts, GAct{Op: "send", Val: fmt.Sprintf("out%d", i), N: int64(i + 1)})
		}
		if c.P(key+"/err", 0.2) {
			acts = append(acts, GAct{Op: "status", Code: codes.NotFound, Val: "no such thing"})
		}
		l.GRPC = func(s *Sim) *GServer {
			return s.GRPC("srv:80", func(string, int) []GAct { return acts })
		}
	default:
		panic("load " + kind)
	}
	if po.Rich {
		switch c.N(key+"/global", 13) {
		case 12:
			if !l.NoCache && kind != "cache-update" {
				l.own(c.P(key+"/ownenv", 0.4))
			}
		case 9:
			l.Args = append(l.Args, "--debug")
		case 10:
			if reports[kind] {
				l.Args = append(l.Args, []string{"--json", "--error-format=message:filename:line", "--error-format=filename:line:column:id:message"}[map[bool]int{false: c.N(key+"/fmt", 3)}[strings.HasPrefix(kind, "break")]])
			}
		case 11:
			if at == "." && o.On == nil && p.CfgName != "" && !strings.HasPrefix(kind, "break") && kind != "help" && !strings.HasPrefix(kind, "version") {
				j := p.Config
				if p.CfgName == "prototool.yaml" {
					j = yamlToJSON(j)
				}
				l.Args = append(l.Args, "--config-data", j)
				p.Config = "{this: is not, a: configuration}\n"
				if c.P(key+"/nocfg", 0.5) {
					p.CfgName = ""
				}
			}
		}
	}
	return l
}

// before puts something in the place of the output.
func (l *Load) before(n int) {
	if n == 0 {
		return
	}
	real := "/work/out/real-" + path.Base(l.Out)
	if n > 2 {
		l.Writes = append(l.Writes, real)
	}
	l.Extra = func(s *Sim) {
		old := []byte(strings.Repeat("{\"old\":1}\n", n*4000))
		switch n {
		case 1, 2:
			s.K.FS.Put(l.Out, old, 0644)
		case 3:
			// a link to the file, or to where it will be
			s.K.FS.Put(real, old, 0600)
			s.K.FS.Symlink(real, l.Out)
		case 4:
			s.K.FS.MkdirAll("/work/out")
			s.K.FS.Symlink("../out/"+path.Base(real), l.Out)
		}
	}
}

const ownProtoc = "/opt/protoc"

// own makes the command use a protoc that the user has installed.
func (l *Load) own(env bool) {
	l.Own = true
	if env {
		l.Env = map[string]string{"PROTOTOOL_PROTOC_BIN_PATH": ownProtoc + "/bin/protoc", "PROTOTOOL_PROTOC_WKT_PATH": ownProtoc + "/include"}
		return
	}
	l.Args = append(l.Args, "--protoc-bin-path", ownProtoc+"/bin/protoc", "--protoc-wkt-path", ownProtoc+"/include/")
}

// mutateTree derives a previous version of the project: some messages and fields more.
func (c *Ctx) mutateTree(key string, p *Proj) map[string]string {
	t := map[string]string{}
	if p.CfgName != "" {
		t[p.CfgName] = p.Config
	}
	for f, x := range p.Extra {
		t[f] = x
	}
	var names []string
	for f := range p.Files {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		t[f] = p.Files[f]
		if p.Bad[f] != "" || strings.HasSuffix(f, "rpc.proto") {
			continue
		}
		switch c.N(key+"/"+f, 5) {
		case 3:
			t[f] += fmt.Sprintf("\nmessage Gone%s {\n  string id = 1;\n}\n", camel(strings.TrimSuffix(f, ".proto")))
		case 4:
			t[f] = strings.Replace(t[f], "string id = 1;", "string id = 1;\n  string gone = 77;", 1)
		}
	}
	return t
}

// Put prepares a machine for the command. prevSet is the previous descriptor set if the command needs one.
func (l *Load) Put(s *Sim, prevSet []byte) {
	l.P.Put(s)
	if l.Extra != nil {
		l.Extra(s)
	}
	if l.Own {
		for f, b := range archiveFiles(DefaultVer) {
			s.K.FS.Put(ownProtoc+"/"+f, b, 0755)
		}
	}
	if l.Name == "break-git" || l.Name == "break-json" {
		s.K.FS.Put(Work+"/.git/HEAD", []byte("ref: refs/heads/main\n"), 0644)
		s.K.FS.Put(Work+"/.git/objects/"+l.Branch+".pack", progs.Pack(l.Prev), 0644)
		// the branch that was checked out is as the working tree
		cur := map[string]string{}
		for f, x := range l.P.Files {
			cur[f] = x
		}
		if l.P.CfgName != "" {
			cur[l.P.CfgName] = l.P.Config
		}
		s.K.FS.Put(Work+"/.git/objects/main.pack", progs.Pack(cur), 0644)
	}
	if l.Name == "break-ds" {
		s.K.FS.Put(Work+"/prev.bin", prevSet, 0644)
	}
	if l.GRPC != nil {
		l.GRPC(s)
	}
}

// PrevSet makes the previous descriptor set with prototool itself, on a machine of its own.
func (l *Load) PrevSet(c *Ctx, warm *Sim) []byte {
	if l.Name != "break-ds" {
		return nil
	}
	s := c.Sim("prev", Plain())
	s.Warm(warm)
	s.Write(Work, l.Prev)
	s.Do("prev", RunOpts{}, "break", "descriptor-set", "-o", "prev.bin")
	b, _ := s.K.FS.Get(Work + "/prev.bin")
	return append([]byte(nil), b...)
}

// Start starts the command.
func (l *Load) Start(s *Sim, o RunOpts) *Run {
	if l.HasIn && o.Stdin == nil {
		o.Stdin = &kern.Source{Data: []byte(l.Stdin)}
	}
	if l.Cwd != "" {
		o.Cwd = l.Cwd
	}
	if len(l.Env) > 0 {
		env := map[string]string{}
		for n, v := range o.Env {
			env[n] = v
		}
		for n, v := range l.Env {
			env[n] = v
		}
		o.Env = env
	}
	label := l.Label
	if label == "" {
		label = "main"
	}
	return s.Start(label, o, l.Args...)
}

// Do runs the command.
func (l *Load) Do(s *Sim, o RunOpts) *Run {
	r := l.Start(s, o)
	s.Run()
	return r
}

// Describe is for the evidence.
func (l *Load) Describe() string {
	return "prototool " + strings.Join(l.Args, " ") + "; " + l.P.Describe()
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}
