//go:build go1.25

package harness

import (
	"bytes"
	"encoding/json"
	"errors"
	"sort"
	"strings"

	"github.com/golang/protobuf/jsonpb"
	"github.com/golang/protobuf/proto"
	dpb "github.com/golang/protobuf/protoc-gen-go/descriptor"
)

// checkSet checks that the descriptor set which an undisturbed, successful command wrote is the one of the selected
// files: all of them and, if asked for, what they import, each once.
func (g *Rig) checkSet(s *Sim, r *Run) {
	l := g.L
	if !r.OK() || l.File != "" || !strings.HasPrefix(l.Name, "ds") && l.Name != "break-out" {
		return
	}
	b := r.Out.Data
	if l.Out != "" || l.Tmp {
		f := l.Out
		if l.Tmp {
			f = strings.TrimSpace(r.Stdout())
		}
		b, _ = s.K.FS.Get(f)
	}
	d := &dpb.FileDescriptorSet{}
	var err error
	args := strings.Join(r.Args, " ") + " "
	if strings.Contains(args, " --json ") {
		if err = jsonpb.Unmarshal(bytes.NewReader(b), d); err == nil && !json.Valid(b) {
			err = errors.New("there is something behind it")
		}
	} else {
		err = proto.Unmarshal(b, d)
	}
	if err != nil {
		g.C.Violate("C13.set", "%s, but its descriptor set of %d bytes cannot be read: %v", r.Desc(), len(b), err)
		return
	}
	g.C.Hit("c13.set_read")
	has := map[string]bool{}
	var names []string
	imports := strings.Contains(args, " --include-imports ") || l.Name == "break-out"
	source := strings.Contains(args, " --include-source-info ")
	for _, f := range d.File {
		if has[f.GetName()] {
			g.C.Violate("C13.set", "%s, but its descriptor set holds %s twice", r.Desc(), f.GetName())
		}
		has[f.GetName()] = true
		names = append(names, f.GetName())
		if source && f.SourceCodeInfo == nil {
			g.C.Violate("C13.set", "%s, but its descriptor set has no source code info for %s", r.Desc(), f.GetName())
		}
	}
	for _, f := range d.File {
		for _, i := range f.Dependency {
			if imports && !has[i] {
				g.C.Violate("C13.set", "%s, but its descriptor set does not hold %s, which %s imports", r.Desc(), i, f.GetName())
			}
		}
	}
	want := append([]string(nil), l.P.Selected(l.Sub)...)
	sort.Strings(want)
	for _, f := range want {
		if sub := l.P.SubInc; sub != "" && under(f, sub) {
			f = strings.TrimPrefix(f, sub+"/")
		}
		if !has[f] {
			g.C.Violate("C13.set", "%s, but its descriptor set does not hold %s: %s", r.Desc(), f, names)
			return
		}
	}
	if !imports && len(names) != len(want) {
		g.C.Violate("C13.set", "%s, but its descriptor set holds %s instead of %s", r.Desc(), names, want)
	}
}
