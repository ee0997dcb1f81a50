//go:build go1.25

package progs

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	dpb "github.com/golang/protobuf/protoc-gen-go/descriptor"
	plugpb "github.com/golang/protobuf/protoc-gen-go/plugin"
	"github.com/jhump/protoreflect/desc"
	"github.com/jhump/protoreflect/desc/protoparse"

	"verif.local/sim/kern"
)

type outDirective struct{ name, param, dir string }

// protoc parses, reports errors the way protoc does, writes descriptor sets and runs plugins.
func protoc(p *kern.Proc) int {
	version := "3.11.0"
	if f := strings.Fields(p.Info["image"]); len(f) > 1 {
		version = f[1]
	}
	var includes, files []string
	plugins := map[string]string{}
	var outs []outDirective
	descOut := ""
	hasDescOut, incImports, incSource := false, false, false
	args := p.Argv[1:]
	for i := 0; i < len(args); i++ {
		a := args[i]
		val := func() string {
			i++
			if i < len(args) {
				return args[i]
			}
			return ""
		}
		switch {
		case a == "--version" && version == "exit":
			errf(p, "protoc: error while loading shared libraries: libprotoc.so.22\n")
			return 127
		case a == "--version" && version == "crash":
			p.Op("crash", "protoc", nil, nil, func(string) string {
				p.K.Kill(p, syscall.SIGSEGV)
				return "SIGSEGV"
			})
			return 139
		case a == "--version":
			say(p, 1, "libprotoc "+version+"\n")
			return 0
		case a == "-I" || a == "--proto_path":
			includes = append(includes, val())
		case strings.HasPrefix(a, "--proto_path="):
			includes = append(includes, strings.TrimPrefix(a, "--proto_path="))
		case strings.HasPrefix(a, "-I"):
			includes = append(includes, a[2:])
		case a == "-o":
			descOut, hasDescOut = val(), true
		case strings.HasPrefix(a, "--descriptor_set_out="):
			descOut, hasDescOut = strings.TrimPrefix(a, "--descriptor_set_out="), true
		case a == "--include_imports":
			incImports = true
		case a == "--include_source_info":
			incSource = true
		case strings.HasPrefix(a, "--plugin="):
			v := strings.TrimPrefix(a, "--plugin=")
			if j := strings.IndexByte(v, '='); j > 0 {
				plugins[v[:j]] = v[j+1:]
			} else {
				plugins[path.Base(v)] = v
			}
		case strings.HasPrefix(a, "--") && strings.Contains(a, "_out="):
			j := strings.Index(a, "_out=")
			o := outDirective{name: a[2:j]}
			v := a[j+5:]
			if c := strings.LastIndexByte(v, ':'); c >= 0 {
				o.param, o.dir = v[:c], v[c+1:]
			} else {
				o.dir = v
			}
			outs = append(outs, o)
		case strings.HasPrefix(a, "-") && a != "-":
			errf(p, "Unknown flag: %s\n", a)
			return 1
		default:
			files = append(files, a)
		}
	}
	if len(files) == 0 {
		errf(p, "Missing input file.\n")
		return 1
	}
	if !hasDescOut && len(outs) == 0 {
		errf(p, "Missing output directives.\n")
		return 1
	}
	failed := false
	var incs []string
	for _, d := range includes {
		if st, e := p.Stat(d, true); e != 0 || !st.Dir {
			errf(p, "%s: warning: directory does not exist.\n", d)
			continue
		}
		incs = append(incs, path.Clean(d))
	}
	abs := func(f string) string {
		if !strings.HasPrefix(f, "/") {
			f = p.Cwd + "/" + f
		}
		return path.Clean(f)
	}
	// virtual names
	var virt []string
	for _, f := range files {
		v := ""
		for i, d := range incs {
			ad := abs(d)
			if strings.HasPrefix(abs(f), ad+"/") || ad == "/" {
				v = strings.TrimPrefix(strings.TrimPrefix(abs(f), ad), "/")
				for _, before := range incs[:i] {
					if _, e := p.Stat(path.Join(before, v), true); e == 0 {
						errf(p, "%s: Input is shadowed in the --proto_path by \"%s\".  Either use the latter file as your input or reorder the --proto_path so that the former file's location comes first.\n", f, path.Join(before, v))
						return 1
					}
				}
				break
			}
		}
		if v == "" {
			errf(p, "%s: File does not reside within any path specified using --proto_path (or -I).\n", f)
			return 1
		}
		virt = append(virt, v)
	}
	cache := map[string][]byte{}
	where := map[string]string{}
	missing := map[string]bool{}
	var missOrder []string
	acc := func(name string) (io.ReadCloser, error) {
		if b, ok := cache[name]; ok {
			return ioutil.NopCloser(bytes.NewReader(b)), nil
		}
		if missing[name] {
			return nil, os.ErrNotExist
		}
		for _, d := range incs {
			full := path.Join(d, name)
			b, e := readFile(p, full)
			if e == 0 {
				cache[name] = b
				where[name] = abs(full)
				return ioutil.NopCloser(bytes.NewReader(b)), nil
			}
			if e != syscall.ENOENT && e != syscall.ENOTDIR {
				break
			}
		}
		missing[name] = true
		missOrder = append(missOrder, name)
		return nil, os.ErrNotExist
	}
	// load the transitive closure first, reporting what cannot be found, as protoc does
	type imp struct {
		name string
		line int
	}
	loaded := map[string][]imp{}
	bad := map[string]bool{}
	var load func(name string, stack []string) bool
	load = func(name string, stack []string) bool {
		if _, ok := loaded[name]; ok {
			return !bad[name]
		}
		r, err := acc(name)
		if err != nil {
			bad[name] = true
			loaded[name] = nil
			return false
		}
		b, _ := ioutil.ReadAll(r)
		loaded[name] = nil
		syntax := false
		for n, line := range strings.Split(string(b), "\n") {
			t := strings.TrimSpace(line)
			if strings.HasPrefix(t, "syntax") {
				syntax = true
			}
			if !strings.HasPrefix(t, "import ") {
				continue
			}
			q := strings.Split(t, `"`)
			if len(q) >= 2 {
				loaded[name] = append(loaded[name], imp{q[1], n + 1})
			}
		}
		if !syntax {
			errf(p, "[libprotobuf WARNING google/protobuf/compiler/parser.cc:562] No syntax specified for the proto file: %s. Please use 'syntax = \"proto2\";' or 'syntax = \"proto3\";' to specify a syntax version. (Defaulted to proto2 syntax.)\n", name)
		}
		for _, i := range loaded[name] {
			cyc := false
			for _, s := range append(stack, name) {
				if s == i.name {
					cyc = true
				}
			}
			if cyc {
				errf(p, "%s:%d:1: File recursively imports itself: %s\n", name, i.line, strings.Join(append(append(append([]string{}, stack...), name), i.name), " -> "))
				bad[name] = true
				continue
			}
			wasMissing := missing[i.name]
			if !load(i.name, append(append([]string{}, stack...), name)) {
				if missing[i.name] && !wasMissing {
					errf(p, "%s: File not found.\n", i.name)
				}
				errf(p, "%s:%d:1: Import \"%s\" was not found or had errors.\n", name, i.line, i.name)
				bad[name] = true
			}
		}
		return !bad[name]
	}
	for _, v := range virt {
		if !load(v, nil) {
			if missing[v] {
				errf(p, "%s: No such file or directory\n", v)
			}
			failed = true
		}
	}
	if failed {
		return 1
	}
	// directives for the stub
	exit := 0
	for _, v := range virt {
		for _, line := range strings.Split(string(cache[v]), "\n") {
			t := strings.TrimSpace(line)
			switch {
			case strings.HasPrefix(t, "// @protoc-exit "):
				exit, _ = strconv.Atoi(strings.TrimPrefix(t, "// @protoc-exit "))
			case strings.HasPrefix(t, "// @protoc-sleep "):
				n, _ := strconv.Atoi(strings.TrimPrefix(t, "// @protoc-sleep "))
				p.Sleep(time.Duration(n) * time.Millisecond)
			case strings.HasPrefix(t, "// @protoc "):
				errf(p, "%s\n", strings.TrimPrefix(t, "// @protoc "))
			}
		}
	}
	parser := protoparse.Parser{
		ImportPaths:           []string{""},
		Accessor:              acc,
		IncludeSourceCodeInfo: true,
		ErrorReporter: func(err protoparse.ErrorWithPos) error {
			pos := err.GetPosition()
			msg := strings.Replace(err.Unwrap().Error(), "\n", " ", -1)
			if i := strings.Index(msg, "unknown type "); i >= 0 {
				msg = "\"" + msg[i+len("unknown type "):] + "\" is not defined."
			}
			errf(p, "%s:%d:%d: %s\n", pos.Filename, pos.Line, pos.Col, msg)
			failed = true
			return nil
		},
	}
	fds, err := parser.ParseFiles(virt...)
	if err != nil {
		if !failed {
			errf(p, "%s: %s\n", virt[0], err.Error())
		}
		return 1
	}
	if failed {
		return 1
	}
	for _, fd := range fds {
		unusedImports(p, fd, cache[fd.GetName()])
	}
	if exit != 0 {
		return exit
	}
	// outputs
	closure := func() []*desc.FileDescriptor {
		var out []*desc.FileDescriptor
		seen := map[string]bool{}
		var add func(f *desc.FileDescriptor)
		add = func(f *desc.FileDescriptor) {
			if seen[f.GetName()] {
				return
			}
			seen[f.GetName()] = true
			for _, d := range f.GetDependencies() {
				add(d)
			}
			out = append(out, f)
		}
		for _, f := range fds {
			add(f)
		}
		return out
	}
	strip := func(f *desc.FileDescriptor, keep bool) *dpb.FileDescriptorProto {
		d := proto.Clone(f.AsFileDescriptorProto()).(*dpb.FileDescriptorProto)
		if !keep {
			d.SourceCodeInfo = nil
		}
		return d
	}
	type outFile struct{ name, content string }
	var writes []struct {
		dir   string
		files []outFile
	}
	for _, o := range outs {
		req := &plugpb.CodeGeneratorRequest{FileToGenerate: virt}
		if o.param != "" {
			req.Parameter = proto.String(o.param)
		}
		for _, f := range closure() {
			req.ProtoFile = append(req.ProtoFile, strip(f, true))
		}
		in, _ := proto.Marshal(req)
		exe := plugins["protoc-gen-"+o.name]
		if exe == "" {
			for _, d := range strings.Split(p.Env["PATH"], ":") {
				if st, e := p.Stat(d+"/protoc-gen-"+o.name, true); e == 0 && !st.Dir && st.Md&0111 != 0 {
					exe = d + "/protoc-gen-" + o.name
					break
				}
			}
			if exe == "" {
				exe = "protoc-gen-" + o.name
			}
		}
		out, status, startErr := runPlugin(p, exe, o, in)
		if startErr != 0 {
			errf(p, "%s: program not found or is not executable\n--%s_out: protoc-gen-%s: Plugin failed with status code 1.\n", exe, o.name, o.name)
			return 1
		}
		if status != 0 {
			if status < 0 {
				errf(p, "--%s_out: protoc-gen-%s: Plugin killed by signal %d.\n", o.name, o.name, -status)
			} else {
				errf(p, "--%s_out: protoc-gen-%s: Plugin failed with status code %d.\n", o.name, o.name, status)
			}
			return 1
		}
		resp := &plugpb.CodeGeneratorResponse{}
		if err := proto.Unmarshal(out, resp); err != nil {
			errf(p, "--%s_out: protoc-gen-%s: Plugin output is unparseable.\n", o.name, o.name)
			return 1
		}
		if resp.GetError() != "" {
			errf(p, "--%s_out: %s\n", o.name, resp.GetError())
			return 1
		}
		w := struct {
			dir   string
			files []outFile
		}{dir: o.dir}
		for _, f := range resp.File {
			w.files = append(w.files, outFile{f.GetName(), f.GetContent()})
		}
		writes = append(writes, w)
	}
	for _, w := range writes {
		if strings.HasSuffix(w.dir, ".jar") || strings.HasSuffix(w.dir, ".zip") {
			b := ""
			for _, f := range w.files {
				b += f.name + "\n" + f.content + "\n"
			}
			if e := writeFile(p, w.dir, []byte(b), 0666); e != 0 {
				errf(p, "%s: %s\n", w.dir, e.Error())
				return 1
			}
			continue
		}
		if _, e := p.Stat(w.dir, true); e != 0 {
			errf(p, "%s: No such file or directory\n", w.dir)
			return 1
		}
		for _, f := range w.files {
			dir := ""
			parts := strings.Split(f.name, "/")
			for _, x := range parts[:len(parts)-1] {
				dir = path.Join(dir, x)
				if e := p.Mkdir(path.Join(w.dir, dir), 0777); e != 0 && e != syscall.EEXIST {
					errf(p, "%s: while trying to create directory %s: %s\n", f.name, dir, e.Error())
					return 1
				}
			}
			if e := writeFile(p, path.Join(w.dir, f.name), []byte(f.content), 0666); e != 0 {
				errf(p, "%s: write: %s\n", path.Join(w.dir, f.name), e.Error())
				return 1
			}
		}
	}
	if hasDescOut {
		set := &dpb.FileDescriptorSet{}
		list := fds
		if incImports {
			list = closure()
		}
		for _, f := range list {
			set.File = append(set.File, strip(f, incSource))
		}
		data, _ := proto.Marshal(set)
		if e := writeFile(p, descOut, data, 0666); e != 0 {
			errf(p, "%s: %s\n", descOut, e.Error())
			return 1
		}
	}
	return 0
}

func runPlugin(p *kern.Proc, exe string, o outDirective, in []byte) (out []byte, status int, e syscall.Errno) {
	r0, w0 := kern.NewPipe()
	r1, w1 := kern.NewPipe()
	nr0, nw0 := p.Adopt(r0), p.Adopt(w0)
	nr1, nw1 := p.Adopt(r1), p.Adopt(w1)
	closeAll := func(ns ...int) {
		for _, n := range ns {
			p.DropFD(n)
		}
	}
	c, e := p.StartProcess(exe, []string{exe}, p.Env, "", [3]*kern.FD{r0, w1, p.Std[2]})
	if e != 0 {
		closeAll(nr0, nw0, nr1, nw1)
		return nil, 0, e
	}
	c.Info["name"] = o.name
	c.Info["param"] = o.param
	c.Info["outdir"] = o.dir
	closeAll(nr0, nw1)
	for b := in; len(b) > 0; {
		n, e := p.Write(w0, b, -1)
		if e != 0 {
			break
		}
		b = b[n:]
	}
	closeAll(nw0)
	out = readAll(p, r1)
	closeAll(nr1)
	p.WaitFor(c)
	if c.Sig != 0 {
		return out, -int(c.Sig), 0
	}
	return out, c.Code, 0
}

// plugin is a code generator. Its image line is "plugin <name> <behaviour>".
func plugin(p *kern.Proc) int {
	f := strings.Fields(p.Info["image"])
	name, mode := "x", "ok"
	if len(f) > 1 {
		name = f[1]
	}
	if len(f) > 2 {
		mode = f[2]
	}
	in := readAll(p, p.Std[0])
	req := &plugpb.CodeGeneratorRequest{}
	if err := proto.Unmarshal(in, req); err != nil {
		errf(p, "plugin %s: bad request\n", name)
		return 1
	}
	if len(req.FileToGenerate) == 0 {
		// protoc went away before it sent the request
		errf(p, "plugin %s: no request\n", name)
		return 1
	}
	p.Info["files"] = strings.Join(req.FileToGenerate, " ")
	only := ""
	if len(f) > 3 {
		only = f[3]
	}
	if only != "" && !strings.Contains(p.Info["files"], only) {
		mode = "ok"
	}
	resp := &plugpb.CodeGeneratorResponse{}
	switch mode {
	case "exit":
		return 3
	case "noise":
		errf(p, "plugin %s says hello\n", name)
	case "error":
		resp.Error = proto.String("protoc-gen-" + name + ": cannot do " + req.FileToGenerate[0])
	case "slow":
		p.Sleep(2 * time.Second)
	case "garbage":
		say(p, 1, "\xff\xff\xff")
		return 0
	case "crash":
		p.Op("crash", "plugin", nil, nil, func(string) string {
			p.K.Kill(p, syscall.SIGSEGV)
			return ""
		})
	}
	if resp.Error == nil {
		for _, n := range req.FileToGenerate {
			for _, d := range req.ProtoFile {
				if d.GetName() != n {
					continue
				}
				d = proto.Clone(d).(*dpb.FileDescriptorProto)
				d.SourceCodeInfo = nil
				b, _ := proto.Marshal(d)
				resp.File = append(resp.File, &plugpb.CodeGeneratorResponse_File{
					Name:    proto.String(n + "." + name + ".txt"),
					Content: proto.String(fmt.Sprintf("plugin %s\nparam %s\nfile %s\ndigest %x\n", name, req.GetParameter(), n, kern.Hash64(string(b)))),
				})
			}
		}
	}
	out, _ := proto.Marshal(resp)
	say(p, 1, string(out))
	return 0
}

func unusedImports(p *kern.Proc, fd *desc.FileDescriptor, src []byte) {
	used := map[string]bool{}
	mark := func(d desc.Descriptor) {
		if d != nil {
			used[d.GetFile().GetName()] = true
		}
	}
	var msg func(m *desc.MessageDescriptor)
	field := func(f *desc.FieldDescriptor) {
		if t := f.GetMessageType(); t != nil {
			mark(t)
		}
		if t := f.GetEnumType(); t != nil {
			mark(t)
		}
		if f.IsExtension() {
			mark(f.GetOwner())
		}
	}
	msg = func(m *desc.MessageDescriptor) {
		for _, f := range m.GetFields() {
			field(f)
		}
		for _, f := range m.GetNestedExtensions() {
			field(f)
		}
		for _, n := range m.GetNestedMessageTypes() {
			msg(n)
		}
	}
	for _, m := range fd.GetMessageTypes() {
		msg(m)
	}
	for _, f := range fd.GetExtensions() {
		field(f)
	}
	for _, s := range fd.GetServices() {
		for _, m := range s.GetMethods() {
			mark(m.GetInputType())
			mark(m.GetOutputType())
		}
	}
	public := map[string]bool{}
	for _, d := range fd.GetPublicDependencies() {
		public[d.GetName()] = true
	}
	names := []string{}
	for _, d := range fd.GetDependencies() {
		if !used[d.GetName()] && !public[d.GetName()] {
			names = append(names, d.GetName())
		}
	}
	sort.Strings(names)
	for _, n := range names {
		line := 1
		for i, l := range strings.Split(string(src), "\n") {
			if strings.Contains(l, "import") && strings.Contains(l, `"`+n+`"`) {
				line = i + 1
			}
		}
		errf(p, "%s:%d:1: warning: Import %s is unused.\n", fd.GetName(), line, n)
	}
}
