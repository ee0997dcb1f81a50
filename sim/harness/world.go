//go:build go1.25

package harness

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"

	"verif.local/sim/kern"
	"verif.local/sim/progs"
)

// The layout of the simulated machine.
const (
	Home         = "/home/u"
	Work         = "/work/proj"
	DefaultCache = "/home/u/.cache/prototool"
	URLFormat    = "https://github.com/protocolbuffers/protobuf/releases/download/v%s/protoc-%s-linux-x86_64.zip"
	DefaultVer   = "3.11.0"
)

// URL is where the release archive of a version lives.
//
// The directory of a release candidate is spelled without its second hyphen.
func URL(version string) string {
	return fmt.Sprintf(URLFormat, strings.Replace(version, "-rc-", "-rc", 1), version)
}

// World holds facts about a machine that was set up.
type World struct {
	Archives map[string]map[string][]byte // by URL: archive path to content
}

var wkts = map[string]string{
	"timestamp.proto": "message Timestamp {\n  int64 seconds = 1;\n  int32 nanos = 2;\n}\n",
	"duration.proto":  "message Duration {\n  int64 seconds = 1;\n  int32 nanos = 2;\n}\n",
	"any.proto":       "message Any {\n  string type_url = 1;\n  bytes value = 2;\n}\n",
	"empty.proto":     "message Empty {}\n",
	"wrappers.proto":  "message StringValue {\n  string value = 1;\n}\n",
}

// archiveFiles is the content of a release archive.
func archiveFiles(version string) map[string][]byte {
	m := map[string][]byte{}
	pay := strings.Repeat(fmt.Sprintf("protoc %s machine code %x\n", version, kern.Hash64(version)), 1500)
	m["bin/protoc"] = kern.Image("protoc "+version, pay)
	for n, body := range wkts {
		m["include/google/protobuf/"+n] = []byte("// protobuf " + version + "\nsyntax = \"proto3\";\n\npackage google.protobuf;\n\n" + body)
	}
	m["include/google/protobuf/compiler/PLACEHOLDER"] = []byte{}
	m["readme.txt"] = []byte("Protocol Buffers " + version + "\n")
	return m
}

type zent struct {
	name string
	data []byte
	mode fs.FileMode
}

func buildZip(ents []zent) []byte {
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	for _, e := range ents {
		h := &zip.FileHeader{Name: e.name, Method: zip.Deflate}
		h.SetMode(e.mode)
		f, err := w.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		if !strings.HasSuffix(e.name, "/") {
			if _, err := f.Write(e.data); err != nil {
				panic(err)
			}
		}
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

func releaseZip(version string, withDirs bool) []byte {
	files := archiveFiles(version)
	names := make([]string, 0, len(files))
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	var ents []zent
	if withDirs {
		for _, d := range []string{"bin/", "include/", "include/google/", "include/google/protobuf/"} {
			ents = append(ents, zent{name: d, mode: fs.ModeDir | 0755})
		}
	}
	for _, n := range names {
		mode := fs.FileMode(0644)
		if n == "bin/protoc" {
			mode = 0755
		}
		ents = append(ents, zent{n, files[n], mode})
	}
	return buildZip(ents)
}

// World creates the standard machine: home, temporary directory, tools, release origin.
func (s *Sim) World() *World {
	if s.wd != nil {
		return s.wd
	}
	w := &World{Archives: map[string]map[string][]byte{}}
	s.wd = w
	f := s.K.FS
	f.MkdirAll(Home)
	f.MkdirAll(Work)
	f.MkdirAll("/tmp")
	f.MkdirAll("/usr/bin")
	f.MkdirAll("/dev")
	f.Put("/dev/null", nil, 0666).Chr = "null"
	f.Put("/dev/full", nil, 0666).Chr = "full"
	f.Put("/usr/bin/git", kern.Image("git", ""), 0755)
	f.Put("/usr/bin/diff", kern.Image("diff", ""), 0755)
	for _, v := range []string{DefaultVer, "3.10.1", "3.9.2"} {
		s.AddRelease(URL(v), v)
	}
	return w
}

// AddRelease serves a release archive at a URL.
func (s *Sim) AddRelease(url, version string) {
	withDirs := version != "3.9.2"
	s.K.Net.Resp[url] = &kern.Resource{Status: 200, Body: releaseZip(version, withDirs)}
	s.wd.Archives[url] = archiveFiles(version)
}

// Tool installs a plugin of a given behaviour.
func (s *Sim) Plugin(name, behaviour string) {
	s.K.FS.Put("/usr/bin/protoc-gen-"+name, kern.Image("plugin "+name+" "+behaviour, ""), 0755)
}

// Write puts files into the tree.
func (s *Sim) Write(dir string, files map[string]string) {
	names := make([]string, 0, len(files))
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s.K.FS.Put(path.Join(dir, n), []byte(files[n]), 0644)
	}
}

// clone copies a subtree of another machine.
func (s *Sim) clone(from *Sim, root string) {
	for _, e := range from.K.FS.Tree(root) {
		switch {
		case e.Node.IsDir():
			s.K.FS.MkdirAll(e.Path)
			s.K.FS.Lookup(e.Path).Mode = e.Node.Mode
		case e.Node.Target != "":
			s.K.FS.Symlink(e.Node.Target, e.Path)
		default:
			s.K.FS.Put(e.Path, e.Node.Data, e.Node.Mode)
		}
	}
}

// WarmCache prepares the default cache by running cache update on a machine of its own. It returns nil if that failed.
func (c *Ctx) WarmCache() *Sim {
	s := c.Sim("warm", Plain())
	s.World()
	r := s.Do("warm", RunOpts{}, "cache", "update")
	if !r.OK() {
		c.Violate(c.Case.Prop+".setup", "cache update fails on an empty machine without any fault: %s", r.Desc())
	}
	return s
}

// Warm sets up a machine whose default cache is complete.
func (s *Sim) Warm(warm *Sim) *World {
	w := s.World()
	s.clone(warm, Home)
	return w
}

// Protos is the description of every protoc run of a machine.
type ProtocRun struct {
	P      *kern.Proc
	Args   []string
	Files  []string // absolute
	Stderr string
}

// ProtocRuns lists the protoc processes a prototool process started (version probes excluded).
func (s *Sim) ProtocRuns(r *Run) []*ProtocRun {
	var out []*ProtocRun
	for _, p := range s.K.Procs {
		if p.Prog != "protoc" || r != nil && p.Parent != r.P {
			continue
		}
		if len(p.Argv) == 2 && p.Argv[1] == "--version" {
			continue
		}
		pr := &ProtocRun{P: p, Args: p.Argv[1:], Stderr: p.Info["stderr"]}
		for i := 1; i < len(p.Argv); i++ {
			a := p.Argv[i]
			if a == "-I" || a == "-o" || a == "--proto_path" {
				i++
				continue
			}
			if strings.HasPrefix(a, "-") {
				continue
			}
			if !strings.HasPrefix(a, "/") {
				a = path.Join(p.Cwd, a)
			}
			pr.Files = append(pr.Files, a)
		}
		out = append(out, pr)
	}
	return out
}

// Descendants lists every process started by a run, directly or not.
func (s *Sim) Descendants(r *Run) []*kern.Proc {
	in := map[*kern.Proc]bool{r.P: true}
	var out []*kern.Proc
	for _, p := range s.K.Procs {
		if p.Parent != nil && in[p.Parent] {
			in[p] = true
			out = append(out, p)
		}
	}
	return out
}

// root finds the prototool process a process belongs to.
func root(p *kern.Proc) *kern.Proc {
	for p.Parent != nil {
		p = p.Parent
	}
	return p
}

// Diff compares two snapshots and lists the paths that differ.
func Diff(a, b map[string]string) []string {
	var out []string
	for _, k := range sortedKeys(a) {
		if v, ok := b[k]; !ok {
			out = append(out, "removed "+k)
		} else if v != a[k] {
			out = append(out, "changed "+k)
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			out = append(out, "added "+k)
		}
	}
	return out
}

func under(p, dir string) bool {
	return p == dir || strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/")
}

var _ = progs.Pack
