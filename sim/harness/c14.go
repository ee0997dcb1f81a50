//go:build go1.25

package harness

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	dpb "github.com/golang/protobuf/protoc-gen-go/descriptor"

	"verif.local/sim/kern"
	"verif.local/sim/progs"
)

// removal is something that exists in the previous definitions only.
type removal struct {
	file string
	name string // what the report has to contain
	also string // and this
}

// verdict is a comparison and what has to come out of it.
type verdict struct {
	g      *Rig
	arg    string
	gone   []removal // that have to be reported
	prev   map[string]string
	sel    []string // selected files of the previous tree
	bad    bool     // one side does not compile
	hidden []string // files of the previous tree that are excluded
	any    bool     // something was removed, if only elsewhere
}

// change is an incompatible change; @ stands for something unique.
type change struct {
	prev, cur  string
	name, also string // of the report
	within     bool   // works inside a message as well
}

var changes = map[string]change{
	"Type":   {"message ChgT@ {\n  int32 v = 1;\n}\n", "message ChgT@ {\n  string v = 1;\n}\n", "ChgT@\" changed type", `field "1"`, true},
	"TypeM":  {"message ChgA@ {\n  string a = 1;\n}\nmessage ChgB@ {\n  string a = 1;\n}\nmessage ChgTM@ {\n  ChgA@ v = 3;\n}\n", "message ChgA@ {\n  string a = 1;\n}\nmessage ChgB@ {\n  string a = 1;\n}\nmessage ChgTM@ {\n  ChgB@ v = 3;\n}\n", "ChgTM@\" changed type", `field "3"`, true},
	"TypeE":  {"enum ChgC@ {\n  CHG_C@_INVALID = 0;\n}\nenum ChgD@ {\n  CHG_D@_INVALID = 0;\n}\nmessage ChgTE@ {\n  ChgC@ v = 1;\n}\n", "enum ChgC@ {\n  CHG_C@_INVALID = 0;\n}\nenum ChgD@ {\n  CHG_D@_INVALID = 0;\n}\nmessage ChgTE@ {\n  ChgD@ v = 1;\n}\n", "ChgTE@\" changed type", `field "1"`, true},
	"Map":    {"message ChgMap@ {\n  map<string, int32> v = 1;\n}\n", "message ChgMap@ {\n  map<string, string> v = 1;\n}\n", "ChgMap@", `field "`, true},
	"Label":  {"message ChgL@ {\n  string v = 1;\n  repeated string w = 2;\n}\n", "message ChgL@ {\n  string v = 1;\n  string w = 2;\n}\n", "ChgL@\" changed from", `field "2"`, true},
	"Name":   {"message ChgN@ {\n  string v = 1;\n}\n", "message ChgN@ {\n  string w = 1;\n}\n", "ChgN@\" changed from", `"v" to "w"`, true},
	"Into":   {"message ChgI@ {\n  string v = 1;\n  oneof o {\n    string w = 2;\n  }\n}\n", "message ChgI@ {\n  oneof o {\n    string v = 1;\n    string w = 2;\n  }\n}\n", "ChgI@", "moved", true},
	"Oneof":  {"message ChgO@ {\n  oneof o {\n    string v = 1;\n  }\n}\n", "message ChgO@ {\n  string v = 1;\n}\n", "ChgO@\" was deleted", `oneof "o"`, true},
	"OutOf":  {"message ChgF@ {\n  oneof o {\n    string v = 1;\n    string w = 2;\n  }\n}\n", "message ChgF@ {\n  string w = 2;\n  oneof o {\n    string v = 1;\n  }\n}\n", "ChgF@", `field "2" removed`, true},
	"Value":  {"enum ChgV@ {\n  CHG_V@_INVALID = 0;\n  CHG_V@_OLD = 1;\n}\n", "enum ChgV@ {\n  CHG_V@_INVALID = 0;\n  CHG_V@_NEW = 1;\n}\n", `_OLD" to "`, "ChgV@\" changed", true},
	"Req":    {chgQ + "service ChgR@ {\n  rpc Same(ChgQ@) returns (ChgQ@);\n  rpc Call(ChgQ@) returns (ChgQ@);\n}\n", chgQ + "service ChgR@ {\n  rpc Same(ChgQ@) returns (ChgQ@);\n  rpc Call(ChgP@) returns (ChgQ@);\n}\n", "ChgR@\" changed request type", `"Call"`, false},
	"Res":    {strings.Replace(chgQ, "Chg", "Cr", -1) + "service ChgS@ {\n  rpc Call(CrQ@) returns (CrQ@);\n}\n", strings.Replace(chgQ, "Chg", "Cr", -1) + "service ChgS@ {\n  rpc Call(CrQ@) returns (CrP@);\n}\n", "ChgS@\" changed response type", `"Call"`, false},
	"Client": {strings.Replace(chgQ, "Chg", "Cc", -1) + "service ChgX@ {\n  rpc Call(stream CcQ@) returns (CcQ@);\n}\n", strings.Replace(chgQ, "Chg", "Cc", -1) + "service ChgX@ {\n  rpc Call(CcQ@) returns (CcQ@);\n}\n", "ChgX@\" changed from", `"Call"`, false},
	"Server": {strings.Replace(chgQ, "Chg", "Cs", -1) + "service ChgY@ {\n  rpc Call(CsQ@) returns (CsQ@);\n}\n", strings.Replace(chgQ, "Chg", "Cs", -1) + "service ChgY@ {\n  rpc Call(CsQ@) returns (stream CsQ@);\n}\n", "ChgY@\" changed from", `"Call"`, false},
	"Scope":  {"message ChgSA@ {\n  message In {\n    string v = 1;\n  }\n}\nmessage ChgSB@ {\n  message In {\n    string v = 1;\n  }\n}\nmessage ChgSC@ {\n  string a = 1;\n  ChgSA@.In v = 2;\n}\n", "message ChgSA@ {\n  message In {\n    string v = 1;\n  }\n}\nmessage ChgSB@ {\n  message In {\n    string v = 1;\n  }\n}\nmessage ChgSC@ {\n  string a = 1;\n  ChgSB@.In v = 2;\n}\n", "ChgSC@\" changed type", `field "2"`, true},
	"ScopeE": {"message ChgSE@ {\n  enum In {\n    NONE = 0;\n  }\n}\nenum ChgSN@ {\n  CHG_SN@_NONE = 0;\n}\nmessage ChgSG@ {\n  enum In {\n    NONE = 0;\n  }\n  In v = 1;\n}\n", "message ChgSE@ {\n  enum In {\n    NONE = 0;\n  }\n}\nenum ChgSN@ {\n  CHG_SN@_NONE = 0;\n}\nmessage ChgSG@ {\n  enum In {\n    NONE = 0;\n  }\n  ChgSE@.In v = 1;\n}\n", "ChgSG@\" changed type", `field "1"`, true},
	"EnumI":  {"enum ChgEI@ {\n  CHG_EI@_NONE = 0;\n}\nmessage ChgEM@ {\n  ChgEI@ v = 4;\n}\n", "enum ChgEI@ {\n  CHG_EI@_NONE = 0;\n}\nmessage ChgEM@ {\n  int32 v = 4;\n}\n", "ChgEM@\" changed type", `field "4"`, true},
	"Bytes":  {"message ChgBY@ {\n  int64 a = 1;\n  repeated bytes v = 19;\n  bool c = 3;\n}\n", "message ChgBY@ {\n  int64 a = 1;\n  repeated string v = 19;\n  bool c = 3;\n}\n", "ChgBY@\" changed type", `field "19"`, true},
	"Sint":   {"message ChgZ@ {\n  sint64 v = 1;\n}\n", "message ChgZ@ {\n  sfixed64 v = 1;\n}\n", "ChgZ@\" changed type", `field "1"`, true},
	"Ones":   {"message ChgW@ {\n  oneof p {\n    string a = 1;\n    string b = 2;\n  }\n  oneof q {\n    string c = 3;\n    string d = 4;\n  }\n  oneof r {\n    string e = 5;\n  }\n}\n", "message ChgW@ {\n  oneof p {\n    string a = 1;\n    string b = 2;\n  }\n  oneof q {\n    string c = 3;\n  }\n  oneof r {\n    string e = 5;\n    string d = 4;\n  }\n}\n", "ChgW@\"", `oneof "q"`, true},
	// as many elements as before
	"SwapF":   {"message ChgUF@ {\n  string a = 1;\n  string b = 2;\n}\n", "message ChgUF@ {\n  string a = 1;\n  string c = 3;\n}\n", `Message field "2" on`, "ChgUF@\" was deleted", true},
	"SwapV":   {"enum ChgUV@ {\n  CHG_UV@_NONE = 0;\n  CHG_UV@_A = 1;\n}\n", "enum ChgUV@ {\n  CHG_UV@_NONE = 0;\n  CHG_UV@_B = 2;\n}\n", `Enum value "1" on`, "ChgUV@\" was deleted", true},
	"SwapO":   {"message ChgUO@ {\n  oneof o {\n    string v = 1;\n    string w = 2;\n  }\n}\n", "message ChgUO@ {\n  oneof p {\n    string v = 1;\n    string w = 2;\n  }\n}\n", `oneof "o" on`, "ChgUO@\" was deleted", true},
	"SwapS":   {"message ChgUQ@ {\n  string q = 1;\n}\nservice ChgUS@ {\n  rpc Keep(ChgUQ@) returns (ChgUQ@);\n  rpc Old(ChgUQ@) returns (ChgUQ@);\n}\n", "message ChgUQ@ {\n  string q = 1;\n}\nservice ChgUS@ {\n  rpc New(ChgUQ@) returns (ChgUQ@);\n  rpc Keep(ChgUQ@) returns (ChgUQ@);\n}\n", `"Old" on`, "ChgUS@\" was deleted", false},
	"SwapN":   {"message ChgUN@ {\n  message A {\n    string v = 1;\n  }\n  enum E {\n    E_NONE = 0;\n  }\n}\n", "message ChgUN@ {\n  message B {\n    string v = 1;\n  }\n  enum E {\n    E_NONE = 0;\n  }\n}\n", "ChgUN@.A\" was deleted", "Message", true},
	"SwapE":   {"message ChgUE@ {\n  enum E {\n    E_NONE = 0;\n  }\n}\n", "message ChgUE@ {\n  enum D {\n    D_NONE = 0;\n  }\n}\n", "ChgUE@.E\" was deleted", "Enum", true},
	"SwapT":   {"message ChgUA@ {\n  string v = 1;\n}\n", "message ChgUB@ {\n  string v = 1;\n}\n", "ChgUA@\" was deleted", "Message", true},
	"Gone":    {"message ChgH@ {\n  oneof p {\n    string a = 1;\n  }\n  oneof q {\n    string c = 3;\n    string d = 4;\n  }\n}\n", "message ChgH@ {\n  oneof p {\n    string a = 1;\n  }\n  oneof q {\n    string d = 4;\n  }\n}\n", "ChgH@\"", `field "3"`, true},
	"Server2": {strings.Replace(chgQ, "Chg", "Ct", -1) + "service ChgU@ {\n  rpc Same(CtQ@) returns (CtQ@);\n  rpc Call(CtQ@) returns (stream CtQ@);\n}\n", strings.Replace(chgQ, "Chg", "Ct", -1) + "service ChgU@ {\n  rpc Same(CtQ@) returns (CtQ@);\n  rpc Call(CtQ@) returns (CtQ@);\n}\n", "ChgU@\" changed from server", `"Call"`, false},
	"Client2": {strings.Replace(chgQ, "Chg", "Cv", -1) + "service ChgK@ {\n  rpc Call(CvQ@) returns (stream CvQ@);\n}\n", strings.Replace(chgQ, "Chg", "Cv", -1) + "service ChgK@ {\n  rpc Call(stream CvQ@) returns (stream CvQ@);\n}\n", "ChgK@\" changed from not client", `"Call"`, false},
	// compatible ones
	"OkField":  {"message OkA@ {\n  string a = 1;\n  int32 b = 2;\n}\n", "message OkA@ {\n  // More.\n  int32 b = 2 [deprecated = true];\n  repeated OkA@ more = 3;\n  string a = 1;\n  oneof fresh {\n    string c = 4;\n  }\n}\n", "", "", true},
	"OkOneof":  {"message OkB@ {\n  oneof o {\n    string a = 1;\n    string b = 5;\n  }\n}\n", "message OkB@ {\n  oneof o {\n    int32 new = 3;\n    string b = 5;\n    string a = 1;\n  }\n}\n", "", "", true},
	"OkValue":  {"enum OkC@ {\n  OK_C@_NONE = 0;\n  OK_C@_A = 1;\n}\n", "enum OkC@ {\n  OK_C@_NONE = 0;\n  OK_C@_B = 2;\n  OK_C@_A = 1;\n}\n", "", "", true},
	"OkMethod": {"message OkD@ {\n}\nservice OkE@ {\n  rpc Call(OkD@) returns (OkD@);\n}\n", "service OkE@ {\n  rpc First(stream OkD@) returns (OkD@);\n  rpc Call(OkD@) returns (OkD@) {\n    option deprecated = true;\n  }\n}\nmessage OkD@ {\n  message Inner {\n  }\n}\nservice OkF@ {\n}\n", "", "", false},
	"OkMap":    {"message OkG@ {\n  map<string, OkG@> m = 1;\n}\n", "message OkG@ {\n  reserved 7;\n  map<string, OkG@> m = 1;\n  map<int32, string> n = 2;\n}\n", "", "", true},
}

// compatible elements have been moved or extended, or are new.
var compatible = regexp.MustCompile(`\b(Ok[A-G]|Moved|Fresh)[0-9]+x`)

var changeKinds = func() []string {
	var l []string
	for k := range changes {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}()

const chgQ = "message ChgQ@ {\n  string q = 1;\n}\nmessage ChgP@ {\n  string q = 1;\n}\n"

// verdict makes two versions of a project.
func (c *Ctx) verdict(only []string, errs float64) *verdict {
	g := &Rig{C: c}
	po := ProjOpts{Errors: errs, Unformatted: 0.1, Excludes: true, MaxDirs: 5, MaxFiles: 3, NoShared: true, Rich: c.P("rich", 0.5), Service: c.P("svc", 0.3)}
	g.L = c.Load("l", LoadOpts{Only: only, Proj: &po})
	l, p := g.L, g.L.P
	v := &verdict{g: g, arg: "."}
	beta, deps := c.P("beta", 0.3), false
	switch {
	case p.CfgName != "prototool.yaml" || contains(l.Args, "--config-data"):
		beta = false
	case beta:
		p.Config += "break:\n  include_beta: true\n"
		if c.P("betaboth", 0.3) {
			p.Config += "  allow_beta_deps: true\n"
		}
	case c.P("betadeps", 0.3):
		deps = true
		p.Config += "break:\n  allow_beta_deps: true\n"
	}
	if dirs := p.Args(); len(dirs) > 1 && c.P("sub", 0.3) {
		v.arg = dirs[c.N("subdir", len(dirs))]
		l.Args = append(l.Args[:2:2], append([]string{v.arg}, l.Args[2:]...)...)
	}
	prev := map[string]string{}
	if p.CfgName != "" {
		prev[p.CfgName] = p.Config
		if p.CfgName == "prototool.yaml" && c.P("otherbreak", 0.3) {
			// the current configuration decides, not the previous one
			prev[p.CfgName] = strings.SplitN(p.Config, "break:\n", 2)[0]
			if !beta {
				prev[p.CfgName] += "break:\n  include_beta: true\n"
			}
		}
	}
	for f, t := range p.Extra {
		prev[f] = t
	}
	excluded := func(f string) bool { return p.Excluded[f] }
	within := func(f string) bool { return v.arg == "." || under("/"+f, "/"+v.arg) }
	add := func(f, name, also string) {
		v.any = true
		if !excluded(f) && within(f) {
			v.gone = append(v.gone, removal{f, name, also})
		}
	}
	rate := []float64{0.3, 0, 0.8}[c.N("rate", 3)]
	for i, f := range sortedKeys(p.Files) {
		prev[f] = p.Files[f]
		if p.Bad[f] != "" || strings.HasSuffix(f, "rpc.proto") {
			continue
		}
		mut := func(kind string) bool { return c.P("mut/"+f+"/"+kind, rate/3) }
		t := fmt.Sprintf("%dx", i)
		if mut("keep") {
			// an enum and a service that stay, but lose something
			cur := "\nenum KeepE" + t + " {\n  KEEP_E" + t + "_INVALID = 0;\n  KEEP_E" + t + "_ONE = 1;\n}\n"
			old := strings.Replace(cur, "_ONE = 1;\n", "_ONE = 1;\n  KEEP_E"+t+"_TWO = 7002;\n", 1)
			if c.P("mut/"+f+"/enumvalue", 0.5) {
				add(f, "Enum value \"7002\"", "KeepE"+t)
			} else {
				old = cur
			}
			svc := "\nmessage KeepQ" + t + " {\n  string q = 1;\n}\n\nservice KeepS" + t + " {\n  rpc One(KeepQ" + t + ") returns (KeepQ" + t + ");\n}\n"
			osvc := svc
			if c.P("mut/"+f+"/method", 0.5) {
				osvc = strings.Replace(svc, "  rpc One", "  rpc Gone"+t+"(KeepQ"+t+") returns (KeepQ"+t+");\n  rpc One", 1)
				add(f, "Gone"+t, "KeepS"+t)
			}
			p.Files[f] += cur + svc
			prev[f] += old + osvc
		}
		if mut("nested") {
			cur := "\nmessage KeepN" + t + " {\n  message In {\n    string stays = 1;\n%s  }\n%s  In in = 1;\n}\n"
			x, y := "", ""
			if c.P("mut/"+f+"/nestedfield", 0.4) {
				x = fmt.Sprintf("    string gone = %d;\n", 7300+i)
				add(f, fmt.Sprintf("Message field \"%d\"", 7300+i), "KeepN"+t+".In")
			}
			if c.P("mut/"+f+"/nestedmsg", 0.4) {
				y = "  message GoneN" + t + " {\n    string id = 1;\n  }\n"
				add(f, "KeepN"+t+".GoneN"+t, "deleted")
			}
			if c.P("mut/"+f+"/nestedenum", 0.4) {
				y += "  enum GoneNE" + t + " {\n    GONE_NE" + t + "_INVALID = 0;\n  }\n"
				add(f, "KeepN"+t+".GoneNE"+t, "deleted")
			}
			deep := "\nmessage KeepD" + t + " {\n  message In {\n    message Deep {\n      enum Kind {\n        KIND_" + t + "_INVALID = 0;\n%s      }\n      Kind kind = 1;\n%s    }\n    Deep deep = 1;\n  }\n  In in = 1;\n}\n"
			xd, yd := "", ""
			if c.P("mut/"+f+"/deepvalue", 0.3) {
				xd = "        KIND_" + t + "_TWO = 7004;\n"
				add(f, "Enum value \"7004\"", "KeepD"+t+".In.Deep.Kind")
			}
			if c.P("mut/"+f+"/deepfield", 0.3) {
				yd = fmt.Sprintf("      string gone = %d;\n", 7500+i)
				add(f, fmt.Sprintf("Message field \"%d\"", 7500+i), "KeepD"+t+".In.Deep")
			}
			if c.P("mut/"+f+"/deepmsg", 0.3) {
				yd += "      message GoneD" + t + " {\n        string id = 1;\n      }\n"
				add(f, "KeepD"+t+".In.Deep.GoneD"+t, "deleted")
			}
			prev[f] += fmt.Sprintf(cur, x, y) + fmt.Sprintf(deep, xd, yd)
			p.Files[f] += fmt.Sprintf(cur, "", "") + fmt.Sprintf(deep, "", "")
		}
		if mut("changed") {
			// elements that stay, but are not what they were
			cur, old := "", ""
			for _, k := range changeKinds {
				if !c.P("mut/"+f+"/"+k, 0.35) {
					continue
				}
				x := changes[k]
				in := func(s string) string { return strings.Replace(s, "@", t, -1) }
				o, n := in(x.prev), in(x.cur)
				if c.P("mut/"+f+"/"+k+"/same", 0.15) {
					o = n
				} else if x.name != "" {
					add(f, in(x.name), in(x.also))
				}
				if x.within && c.P("mut/"+f+"/"+k+"/in", 0.5) {
					w := []string{"message Outer" + k + t + " {\n", "message Outer" + k + t + " {\nmessage Middle {\n"}[c.N("mut/"+f+"/"+k+"/deep", 2)]
					o, n = w+o, w+n
					o, n = o+strings.Repeat("}\n", strings.Count(w, "{")), n+strings.Repeat("}\n", strings.Count(w, "{"))
				}
				old, cur = old+"\n"+o, cur+"\n"+n
			}
			p.Files[f] += cur
			prev[f] += old
		}
		if mut("moved") {
			// to another file of the package
			pkg := strings.TrimSuffix(strings.SplitN(strings.SplitN(p.Files[f], "package ", 2)[1], "\n", 2)[0], ";")
			n := path.Join(path.Dir(f), fmt.Sprintf("zmoved%d.proto", i))
			m := "\nmessage Moved" + t + " {\n  string id = 1;\n}\n"
			prev[f] += m
			if v.arg != "." {
				v.any = true
			}
			if !excluded(f) {
				p.Files[n] = "syntax = \"proto3\";\n\npackage " + pkg + ";\n" + m
			} else {
				p.Files[f] += m
			}
		}
		if mut("file") {
			// a file less in a package that stays
			pkg := strings.TrimSuffix(strings.SplitN(strings.SplitN(p.Files[f], "package ", 2)[1], "\n", 2)[0], ";")
			n := path.Join(path.Dir(f), fmt.Sprintf("zgone%d.proto", i))
			prev[n] = "syntax = \"proto3\";\n\npackage " + pkg + ";\n\nmessage GoneF" + t + " {\n  string id = 1;\n}\n"
			if !excluded(f) && within(n) {
				add(n, "GoneF"+t, "deleted")
			}
			if excluded(f) {
				v.hidden = append(v.hidden, n)
			}
		}
		if mut("message") {
			prev[f] += "\nmessage GoneM" + t + " {\n  string id = 1;\n}\n"
			add(f, "GoneM"+t, "deleted")
		}
		if mut("field") {
			prev[f] = strings.Replace(prev[f], "string id = 1;", fmt.Sprintf("string id = 1;\n  string gone = %d;", 7100+i), 1)
			add(f, fmt.Sprintf("Message field \"%d\"", 7100+i), "deleted")
		}
		if mut("enum") {
			prev[f] += "\nenum GoneE" + t + " {\n  GONE_E" + t + "_INVALID = 0;\n}\n"
			add(f, "GoneE"+t, "deleted")
		}
		if mut("service") {
			m := "GoneQ" + t
			p.Files[f] += "\nmessage " + m + " {\n  string q = 1;\n}\n"
			prev[f] += "\nmessage " + m + " {\n  string q = 1;\n}\n\nservice GoneS" + t + " {\n  rpc Call(" + m + ") returns (" + m + ");\n}\n"
			add(f, "GoneS"+t, "deleted")
		}
		if mut("added") {
			// no break
			p.Files[f] += "\nmessage Fresh" + t + " {\n  string id = 1;\n}\n"
		}
		if mut("pkg") && v.arg == "." {
			d := fmt.Sprintf("gone%d", i)
			suffix := []string{"", ".v1", ".v1beta1"}[c.N("mut/"+f+"/pkgver", 3)]
			prev[d+"/gone.proto"] = "syntax = \"proto3\";\n\npackage gonepkg" + t + suffix + ";\n\nmessage InGone" + t + " {\n  string id = 1;\n}\n"
			if !strings.Contains(suffix, "beta") || beta {
				add(d+"/gone.proto", "gonepkg"+t+suffix, "deleted")
			}
		}
		if mut("betapkg") && v.arg == "." {
			// what is lost from a beta package counts only if that is asked for
			n := fmt.Sprintf("beta%d/v1beta1/b.proto", i)
			p.Files[n] = "syntax = \"proto3\";\n\npackage betapkg" + t + ".v1beta1;\n\nmessage Stays {\n  string id = 1;\n}\n"
			prev[n] = p.Files[n] + "\nmessage GoneB" + t + " {\n  string id = 1;\n}\n"
			if beta {
				add(n, "betapkg"+t+".v1beta1.GoneB"+t, "deleted")
			}
			if c.P("mut/"+f+"/betadep", 0.5) {
				// nothing is removed, but something stable depends on it
				m := fmt.Sprintf("stable%d/s.proto", i)
				p.Files[m] = "syntax = \"proto3\";\n\npackage stablepkg" + t + ".v1;\n\nimport \"" + n + "\";\n\nmessage Uses {\n  betapkg" + t + ".v1beta1.Stays it = 1;\n}\n"
				prev[m] = p.Files[m]
				if c.P("mut/"+f+"/betanew", 0.5) {
					prev[m] = strings.SplitN(p.Files[m], "import", 2)[0] + "message Uses {\n}\n"
				}
				if !beta && !deps {
					add(m, "depends on beta package \"betapkg"+t+".v1beta1\"", "stablepkg"+t+".v1")
				}
			}
		}
		if l.Name == "break-git" && mut("badprev") && c.P("badprev", 0.1) && !excluded(f) && within(f) {
			prev[f] += "\nmessage Broken" + t + " {\n  NoSuchType x = 1;\n}\n"
			v.bad = true
		}
	}
	for _, f := range p.Selected(v.arg) {
		if b := p.Bad[f]; b != "" {
			v.bad = true
		}
	}
	l.Prev, v.prev = prev, prev
	for _, f := range sortedKeys(prev) {
		if strings.HasSuffix(f, ".proto") && !excluded(f) && within(f) && !contains(v.hidden, f) {
			v.sel = append(v.sel, f)
		}
	}
	g.Warm = c.WarmCache()
	if l.Name == "break-ds" && !v.bad {
		s := c.Sim("prev", Plain())
		s.Warm(g.Warm)
		s.Write(Work, prev)
		if p.CfgName == "" {
			// the configuration is given as an argument
			for i, a := range l.Args {
				if a == "--config-data" {
					s.Write(Work, map[string]string{"prototool.json": l.Args[i+1]})
				}
			}
		}
		r := s.Do("prev", RunOpts{}, "break", "descriptor-set", v.arg, "-o", "prev.bin")
		b, ok := s.K.FS.Get(Work + "/prev.bin")
		if !ok || !r.OK() {
			v.bad = true
		}
		g.Set = append([]byte(nil), b...)
	}
	c.Sample("prototool %s; %d removals; %s", strings.Join(l.Args, " "), len(v.gone), p.Describe())
	return v
}

// watch checks that what is compared is complete, and that the repository is left alone.
func (v *verdict) watch(s *Sim, r *Run) {
	s.K.OnEvent = func(e *kern.Event) {
		if e.Kind != "exec" || e.P != r.P || !strings.HasPrefix(e.Res, "pid") || strings.HasSuffix(e.Arg, "--version") || !strings.Contains(e.Arg, "/protoc ") {
			return
		}
		f := strings.Fields(e.Arg)
		last := f[len(f)-1]
		if !strings.HasPrefix(last, "/tmp/") {
			return
		}
		clone := "/" + strings.Join(strings.Split(last, "/")[1:3], "/")
		for _, n := range v.sel {
			b, ok := s.K.FS.Get(path.Join(clone, n))
			if !ok || string(b) != v.prev[n] {
				s.K.Violate("partial|%s compiled the clone although %s is not complete in it (%d of %d bytes); faults: %s", r.Desc(), n, len(b), len(v.prev[n]), faultsOf(s))
				return
			}
		}
	}
}

// judge checks a verdict; strict is for runs without faults.
func (v *verdict) judge(s *Sim, r *Run, strict bool) {
	c := v.g.C
	for _, m := range s.Muts {
		if under(m.Path, Work) && root(m.P) == r.P {
			c.Violate("C14.repo", "%s: %s of %s by %s; faults: %s", r.Desc(), m.Kind, m.Path, m.P.Label, faultsOf(s))
			return
		}
	}
	if !r.P.Exited() {
		return
	}
	if r.OK() {
		switch {
		case v.bad:
			c.Violate("C14.clean", "one side does not compile, but %s; faults: %s", r.Desc(), faultsOf(s))
			return
		case len(v.gone) > 0:
			c.Violate("C14.clean", "%d elements were removed or changed, such as %s of %s, but %s; faults: %s", len(v.gone), v.gone[0].name, v.gone[0].file, r.Desc(), faultsOf(s))
			return
		}
		v.complete(s, r)
		c.Hit("c14.clean")
		return
	}
	if !strict || v.bad {
		c.Hit("c14.refused")
		return
	}
	if !v.any {
		c.Violate("C14.spurious", "nothing was removed, but %s", r.Desc())
		return
	}
	if len(v.gone) > 0 {
		c.Hit("c14.breaking")
	}
	lines := strings.Split(r.Stdout(), "\n")
	for _, l := range lines {
		// with a directory, what its files import counts as well, though not the files beside that
		if v.arg == "." && compatible.MatchString(l) {
			c.Violate("C14.spurious", "%q is not incompatible; %s", l, r.Desc())
			return
		}
	}
	for _, x := range v.gone {
		found := false
		for _, l := range lines {
			q := strings.Replace(l, `\"`, `"`, -1)
			if strings.Contains(q, x.name) && strings.Contains(q, x.also) {
				found = true
			}
		}
		if !found {
			c.Violate("C14.missed", "%s of %s was removed or changed, but it is not reported; %s", x.name, x.file, r.Desc())
			return
		}
	}
}

// complete checks that a clean verdict rests on both sides, completely.
func (v *verdict) complete(s *Sim, r *Run) {
	c, p := v.g.C, v.g.L.P
	var cur, old []*ProtocRun
	clone := ""
	for _, pr := range s.ProtocRuns(r) {
		if pr.P.Code != 0 || pr.P.Sig != 0 {
			c.Violate("C14.clean", "%s failed (%s), but %s; faults: %s", clip(strings.Join(pr.P.Argv, " "), 200), pr.P.Desc(), r.Desc(), faultsOf(s))
			return
		}
		if strings.HasPrefix(pr.Files[0], "/tmp/") {
			clone = "/" + strings.Join(strings.Split(pr.Files[0], "/")[1:3], "/")
			old = append(old, pr)
		} else {
			cur = append(cur, pr)
		}
	}
	checkCoverage(c, "C14.coverage", r, cur, p.Root, p.Selected(v.arg))
	if v.g.L.Name == "break-git" {
		git := 0
		for _, k := range r.P.Kids {
			if k.Prog == "git" {
				git++
				if k.Code != 0 || k.Sig != 0 {
					c.Violate("C14.clean", "git failed (%s), but %s; faults: %s", k.Desc(), r.Desc(), faultsOf(s))
				}
			}
		}
		if git == 0 {
			c.Violate("C14.clean", "git was not run, but %s; faults: %s", r.Desc(), faultsOf(s))
		}
		checkCoverage(c, "C14.coverage", r, old, clone, v.sel)
	}
}

func init() {
	both := []string{"break-git", "break-git", "break-ds"}
	register("C14", "verdicts", 4, func(c *Ctx) {
		v := c.verdict(both, []float64{0, 0, 0, 0.1}[c.N("errs", 4)])
		var first *Run
		for _, name := range []string{"a", "b"} {
			s := v.g.Machine(name, Quiet(c.Swarm(name)))
			r := v.g.L.Start(s, RunOpts{})
			v.watch(s, r)
			s.Run()
			v.judge(s, r, true)
			if first == nil {
				first = r
			} else if r.Code() != first.Code() || norm(r.Stdout()) != norm(first.Stdout()) {
				c.Violate("C14.schedule", "the verdict depends on the schedule: %s, but with another schedule %s", first.Desc(), r.Desc())
			}
		}
	})
	register("C14", "faults", 3, func(c *Ctx) {
		v := c.verdict(both, 0)
		o := RunOpts{Faulty: true, KidFaulty: true}
		a := v.g.Machine("a", Quiet(c.Swarm("a")))
		ra := v.g.L.Start(a, o)
		v.watch(a, ra)
		a.Run()
		v.judge(a, ra, true)
		t := c.aim(a, 1+c.N("two", 2), func(e kern.EligibleOp, kind string) bool {
			return !under(e.Arg, DefaultCache)
		})
		if t == nil {
			return
		}
		b := v.g.Twin("b", a)
		b.K.Target = t
		rb := v.g.L.Start(b, o)
		v.watch(b, rb)
		b.Run()
		v.judge(b, rb, false)
	})
	register("C14", "storm", 1, func(c *Ctx) {
		v := c.verdict(both, 0)
		s := v.g.Machine("a", c.disturb("a", c.P("crash", 0.3)))
		r := v.g.L.Start(s, RunOpts{Faulty: true, KidFaulty: true, Crashable: true})
		v.watch(s, r)
		s.Run()
		v.judge(s, r, false)
	})
	register("C14", "input", 2, func(c *Ctx) {
		v := c.verdict(both, 0)
		if v.bad {
			return
		}
		g, l := v.g, v.g.L
		s := g.Machine("a", Quiet(c.Swarm("a")))
		what := ""
		if l.Name == "break-ds" {
			f := Work + "/prev.bin"
			set := append([]byte(nil), g.Set...)
			switch what = c.Pick("set", "truncated", "missing", "directory", "garbage", "flipped", "other", "doubled"); what {
			case "truncated":
				set = set[:c.N("at", len(set))]
			case "missing":
				delete(s.K.FS.Lookup(Work).Kids, "prev.bin")
				set = nil
			case "directory":
				delete(s.K.FS.Lookup(Work).Kids, "prev.bin")
				s.K.FS.MkdirAll(f)
				set = nil
			case "garbage":
				set = []byte("these are no descriptors\n")
			case "flipped":
				set[c.N("at", len(set))] ^= byte(1 + c.N("bits", 255))
			case "other":
				set = []byte(`{"file":[]}`)
			case "doubled":
				set = append(set, set...)
			}
			if set != nil {
				s.K.FS.Put(f, set, 0644)
			}
			d := &dpb.FileDescriptorSet{}
			if set != nil && proto.Unmarshal(set, d) == nil {
				// still a descriptor set; what it describes is not known to the model
				if what != "doubled" {
					return
				}
			} else {
				v.bad = true
			}
		} else {
			pack := Work + "/.git/objects/" + l.Branch + ".pack"
			b, _ := s.K.FS.Get(pack)
			switch what = c.Pick("repo", "nobranch", "torn", "nogit", "gitfile", "nodir", "noprotos", "main", "nogitprogram"); what {
			case "nobranch":
				delete(s.K.FS.Lookup(path.Dir(pack)).Kids, path.Base(pack))
			case "torn":
				s.K.FS.Put(pack, b[:c.N("at", len(b))], 0644)
			case "nogit":
				delete(s.K.FS.Lookup(Work).Kids, ".git")
			case "gitfile":
				delete(s.K.FS.Lookup(Work).Kids, ".git")
				s.K.FS.Put(Work+"/.git", []byte("gitdir: /elsewhere\n"), 0644)
			case "nodir":
				if v.arg == "." {
					return
				}
				t := map[string]string{}
				for f, x := range v.prev {
					if !under("/"+f, "/"+v.arg) {
						t[f] = x
					}
				}
				s.K.FS.Put(pack, progs.Pack(t), 0644)
			case "noprotos":
				t := map[string]string{"README": "nothing here\n"}
				if l.P.CfgName != "" {
					t[l.P.CfgName] = l.P.Config
				}
				s.K.FS.Put(pack, progs.Pack(t), 0644)
			case "main":
				// the default branch is something else
				s.K.FS.Put(Work+"/.git/objects/main.pack", progs.Pack(map[string]string{"README": "nothing here\n"}), 0644)
			case "nogitprogram":
				delete(s.K.FS.Lookup("/usr/bin").Kids, "git")
			}
			if what == "noprotos" {
				// nothing was there, so nothing is gone
				v.gone, v.sel, v.prev = nil, nil, nil
				if v.arg != "." {
					v.bad = true
				}
			} else if what != "main" {
				v.bad = true
			}
		}
		c.Sample("%s", what)
		c.Hit("c14.input_" + what)
		r := l.Start(s, RunOpts{})
		v.watch(s, r)
		s.Run()
		v.judge(s, r, what == "main" || what == "doubled")
	})
	register("C14", "interrupt", 1, func(c *Ctx) {
		v := c.verdict([]string{"break-git"}, 0)
		v.g.C.slowDown("cur", v.g.L.P.Files)
		s := v.g.Machine("a", Quiet(c.Swarm("a")))
		r := v.g.L.Start(s, RunOpts{})
		v.watch(s, r)
		sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL}[c.N("sig", 3)]
		who := c.Pick("who", "protoc", "git", "all")
		skip := c.N("skip", []int{60, 8, 300}[c.N("skipmax", 3)])
		running := func() []*kern.Proc {
			var out []*kern.Proc
			for _, p := range r.P.Kids {
				if !p.Dead && (who != "git" && realProtoc(p) || who == "git" && p.Prog == "git") {
					out = append(out, p)
				}
			}
			return out
		}
		hit := ""
		s.K.When(func() bool {
			if len(running()) > 0 {
				skip--
				return skip < 0
			}
			return false
		}, func() {
			s.K.After(c.PickDur("wait", 0, time.Millisecond, 50*time.Millisecond), func() {
				ps := running()
				if len(ps) == 0 || r.P.Dead {
					return
				}
				if who == "all" && sig != syscall.SIGKILL {
					hit = "prototool while " + ps[0].Prog + " was running"
					s.K.Kill(r.P, sig)
				} else {
					hit = ps[0].Prog
					s.K.Kill(ps[0], sig)
				}
			})
		})
		s.Run()
		if hit != "" {
			c.Hit("c14.interrupted")
			v.bad = true
			if strings.HasPrefix(hit, "prototool") || r.OK() {
				c.Sample("%s to %s", sig, hit)
			}
		}
		v.judge(s, r, false)
	})
}
