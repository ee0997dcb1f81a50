//go:build go1.25

package harness

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"

	"verif.local/sim/kern"
)

const richProto = `syntax = "proto3";

package rpc;

import "google/protobuf/any.proto";
import "google/protobuf/timestamp.proto";

message Req {
  string value = 1;
  int64 n = 2;
}

message Res {
  string value = 1;
  int64 n = 2;
  google.protobuf.Timestamp some_time = 3;
  google.protobuf.Any any = 4;
  repeated int32 list = 5;
  Res sub = 6;
  bytes blob = 7;
  bool flag = 8;
  Kind kind = 9;
  map<string, int64> counts = 10;
  double ratio = 11;
}

enum Kind {
  KIND_UNSET = 0;
  KIND_A = 1;
}

message Odd {
  string n = 1;
  string value = 2;
}

service XS {
  rpc Unary(Odd) returns (Odd);
  rpc Client(Odd) returns (Odd);
  rpc Server(Odd) returns (Odd);
  rpc Bidi(Odd) returns (Odd);
}

service S2 {
  rpc Unary(Odd) returns (Odd);
  rpc Client(Odd) returns (Odd);
  rpc Server(Odd) returns (Odd);
  rpc Bidi(Odd) returns (Odd);
}

service S {
  rpc Unary2(Odd) returns (Odd);
  rpc Bid(Odd) returns (Odd);
  rpc Unary(Req) returns (Res);
  rpc Client(stream Req) returns (Res);
  rpc Server(Req) returns (stream Res);
  rpc Bidi(stream Req) returns (stream Res);
}
`

// response generates a message of the server: its encoding and what has to be printed.
// ok is false if it cannot be expressed in JSON.
func (c *Ctx) response(key string, depth int, wild bool, other string) (raw []byte, m map[string]interface{}, ok bool) {
	m, ok = map[string]interface{}{}, true
	field := func(tag byte, b []byte) {
		raw = append(raw, tag)
		raw = binary.AppendUvarint(raw, uint64(len(b)))
		raw = append(raw, b...)
	}
	if !c.P(key+"/novalue", 0.15) {
		v := c.Pick(key+"/value", "out", "x", "with \"quotes\" and \\", "line\nbreak", "ünïcødé ☃", "{\"not\":\"json\"}", "<b>&amp;", "LONG", "LONGER", " ", "null")
		if strings.HasPrefix(v, "LONG") {
			v = strings.Repeat("long text ", []int{700, 9000}[(len(v)-len("LONG"))>>1])
		}
		v += fmt.Sprint(c.N(key+"/v", 1000))
		field(0x0a, []byte(v))
		m["value"] = v
	}
	if n := c.N(key+"/n", 4); n > 0 {
		x := []int64{7, -3, math.MaxInt64}[n-1]
		raw = binary.AppendUvarint(append(raw, 0x10), uint64(x))
		m["n"] = fmt.Sprint(x)
	}
	if c.P(key+"/rich", 0.4) {
		for f := 0; f < 9; f++ {
			if !c.P(fmt.Sprintf("%s/field%d", key, f), 0.3) {
				continue
			}
			switch f {
			case 0:
				field(0x1a, append([]byte{0x08}, binary.AppendUvarint(nil, 86400)...))
				m["someTime"] = "1970-01-02T00:00:00Z"
			case 1:
				var any []byte
				url := "type.googleapis.com/rpc.Req"
				if other != "" && c.P(key+"/far", 0.6) {
					url = "type.googleapis.com/" + other
				}
				any = append(any, 0x0a, byte(len(url)))
				any = append(any, url...)
				any = append(any, 0x12, 4, 0x0a, 2, 'o', 'k')
				field(0x22, any)
				m["any"] = map[string]interface{}{"@type": url, "value": "ok"}
			case 2:
				field(0x2a, []byte{1, 0, 3})
				m["list"] = []interface{}{1.0, 0.0, 3.0}
			case 3:
				if depth > 0 {
					break
				}
				r, sm, sok := c.response(key+"/sub", depth+1, wild, other)
				field(0x32, r)
				m["sub"] = sm
				ok = ok && sok
			case 4:
				field(0x3a, []byte{0, 255, 10})
				m["blob"] = base64.StdEncoding.EncodeToString([]byte{0, 255, 10})
			case 5:
				raw = append(raw, 0x40, 1)
				m["flag"] = true
			case 6:
				raw = append(raw, 0x48, 1)
				m["kind"] = "KIND_A"
			case 7:
				field(0x52, []byte{0x0a, 1, 'k', 0x10, 5})
				m["counts"] = map[string]interface{}{"k": "5"}
			case 8:
				raw = append(raw, 0x59)
				raw = binary.LittleEndian.AppendUint64(raw, math.Float64bits(0.5))
				m["ratio"] = 0.5
			}
		}
	}
	if wild && c.P(key+"/unprintable", 0.3) {
		ok = false
		switch c.N(key+"/how", 3) {
		case 0: // a time that has no text form
			field(0x1a, append([]byte{0x10}, binary.AppendUvarint(nil, 2000000000)...))
		case 1: // a type nobody knows
			url := "type.googleapis.com/rpc.Unknown"
			field(0x22, append(append([]byte{0x0a, byte(len(url))}, url...), 0x12, 2, 0x08, 1))
		case 2: // a known type with garbage in it
			url := "type.googleapis.com/rpc.Req"
			field(0x22, append(append([]byte{0x0a, byte(len(url))}, url...), 0x12, 2, 0x0a, 0x7f))
		}
	}
	return
}

// gcase is one call, both sides of it.
type gcase struct {
	c       *Ctx
	g       *Rig
	srv     *GServer
	method  string
	inputs  []string // as the server sees them
	badAt   int      // where the input becomes unusable, -1 if it does not
	stdin   bool
	text    string
	acts    []GAct
	other   string   // a message type that rpc.proto does not know
	wild    bool     // the server may send what cannot be printed
	headers []string // "key=value" in order
	details bool
	src     *kern.Source
	tls     []grpc.ServerOption // the server's side of the secure connection, if there is one
}

func (c *Ctx) gcall() *gcase {
	g := c.Rig(LoadOpts{Only: []string{"grpc"}, Proj: &ProjOpts{MaxDirs: 2, MaxFiles: 2, NoShared: true, NoGroup: true}})
	k := &gcase{c: c, g: g, badAt: -1, wild: c.P("wild", 0.15)}
	l := g.L
	l.P.Files["rpc/rpc.proto"] = richProto
	if d := c.Pick("elsewhere", "", "aaa", "zed"); d != "" {
		// a message that only an Any can hold, in another directory
		k.other = "far." + d + ".Thing"
		l.P.Files[d+"/thing.proto"] = "syntax = \"proto3\";\n\npackage far." + d + ";\n\nmessage Thing {\n  string value = 1;\n}\n"
	}
	for _, pkg := range []string{"far.rpc", "aa", "rpc.rpc", "r"} {
		if c.P("alike/"+pkg, 0.15) {
			// a service of the same name in another package
			odd := richProto[strings.Index(richProto, "message Odd {"):strings.Index(richProto, "service XS")]
			odd += strings.Replace(richProto[strings.Index(richProto, "service S2"):strings.Index(richProto, "service S {")], "S2", "S", 1)
			l.P.Files[strings.Replace(pkg, ".", "/", -1)+"/alike.proto"] = "syntax = \"proto3\";\n\npackage " + pkg + ";\n\n" + odd
		}
	}
	k.method = c.Pick("method", "Unary", "Client", "Server", "Bidi", "Bidi")
	k.stdin = c.P("stdin", 0.6)
	k.details = c.P("details", 0.3)
	l.Args = []string{"grpc"}
	if k.details {
		l.Args = append(l.Args, "--details")
	}
	return k
}

func (k *gcase) inStream() bool { return k.method == "Client" || k.method == "Bidi" }

func (k *gcase) outStream() bool { return k.method == "Server" || k.method == "Bidi" }

// input generates what the user sends.
func (k *gcase) input(bad float64) {
	c := k.c
	n := 1
	if k.inStream() {
		n = c.N("inputs", 6)
	} else if c.P("noinput", 0.1) {
		n = 0
	} else if c.P("toomany", 0.1) {
		n = 2
	}
	if c.P("many", 0.1) && k.inStream() {
		n = 20 + c.N("howmany", 30)
	}
	if c.P("bad", bad) {
		k.badAt = c.N("badat", n+1)
	}
	var b strings.Builder
	for i := 0; i <= n; i++ {
		if i == k.badAt {
			b.WriteString(c.Pick("how", "{\"value\":", "nonsense", "{\"nosuch\":1}", "{\"n\":\"x\"}", "}", "{\"value\":1}", "[1]", "{\"value\":\"a\"", "\"text\"", "7", "{'value':'x'}", "{\"value\":\"a\",}"))
			if k.badAt < n {
				b.WriteString("\n")
			}
		}
		if i == n {
			break
		}
		key := fmt.Sprintf("in%d", i)
		m := map[string]interface{}{}
		v, x := "", int64(0)
		if !c.P(key+"/empty", 0.1) {
			v = fmt.Sprintf("in%d%s", i, c.Pick(key+"/v", "", " \"q\" \\", "\n", "é☃", "{}", strings.Repeat("z", 3000)))
			m["value"] = v
			if c.P(key+"/n", 0.6) {
				x = int64(i + 1)
				if big := c.N(key+"/big", 12); big < 4 {
					x = []int64{9007199254740993, -9223372036854775808, 9223372036854775807, -1000000000000000001}[big]
				}
				if c.P(key+"/str", 0.5) {
					m["n"] = fmt.Sprint(x)
				} else {
					m["n"] = x
				}
			}
		}
		var text []byte
		if c.P(key+"/pretty", 0.2) {
			text, _ = json.MarshalIndent(m, " ", "\t")
		} else {
			text, _ = json.Marshal(m)
		}
		b.Write(text)
		b.WriteString(c.Pick(key+"/sep", "\n", "", " ", "\n\n", "\r\n"))
		k.inputs = append(k.inputs, fmt.Sprintf("%s/%d", v, x))
	}
	k.text = b.String()
	if k.text == "" {
		k.stdin = true // --data has to be set
	}
	l := k.g.L
	l.HasIn, l.Stdin = false, ""
	if !k.stdin {
		l.Args = append(l.Args, "--data", k.text)
		return
	}
	l.Args = append(l.Args, "--stdin")
}

// source is standard input, at some pace.
func (k *gcase) source() *kern.Source {
	c := k.c
	if !k.stdin {
		return nil
	}
	s := &kern.Source{Data: []byte(k.text)}
	if c.P("pace", 0.5) {
		n := 1 + c.N("chunks", 6)
		left := len(k.text)
		for i := 0; i < n && left > 1; i++ {
			x := 1 + c.N(fmt.Sprintf("chunk%d", i), left-1)
			s.Chunks = append(s.Chunks, x)
			s.Delays = append(s.Delays, []time.Duration{0, time.Millisecond, 700 * time.Millisecond, 4 * time.Second}[c.N(fmt.Sprintf("delay%d", i), 4)])
			left -= x
		}
		if left > 0 {
			s.Chunks = append(s.Chunks, left)
			s.Delays = append(s.Delays, []time.Duration{0, 2 * time.Second}[c.N("lastdelay", 2)])
		}
	}
	k.src = s
	return s
}

// script generates what the server does.
func (k *gcase) script() {
	c := k.c
	var acts []GAct
	sends := 0
	send := func() {
		key := fmt.Sprintf("out%d", sends)
		sends++
		raw, m, ok := c.response(key, 0, k.wild, k.other)
		text, _ := json.Marshal(m)
		v := string(text)
		if !ok {
			v = "?unprintable"
		}
		acts = append(acts, GAct{Op: "sendraw", Val: v, Raw: raw})
	}
	if c.P("header", 0.3) {
		acts = append(acts, GAct{Op: "header", Val: "one"})
	}
	if c.P("trailer", 0.3) {
		acts = append(acts, GAct{Op: "trailer", Val: "two"})
	}
	pause := func(i int) {
		if c.P(fmt.Sprintf("pause%d", i), 0.2) {
			acts = append(acts, GAct{Op: "sleep", D: []time.Duration{time.Millisecond, 300 * time.Millisecond, 5 * time.Second, 31 * time.Second}[c.N(fmt.Sprintf("pausefor%d", i), 4)]})
		}
	}
	style := c.N("style", 4)
	switch {
	case style == 3: // a chat
		n := c.N("turns", 12)
		for i := 0; i < n; i++ {
			pause(i)
			switch c.N(fmt.Sprintf("turn%d", i), 3) {
			case 0:
				if k.outStream() || sends == 0 {
					send()
				}
			default:
				acts = append(acts, GAct{Op: "recv"})
			}
		}
		if c.P("drain", 0.7) {
			acts = append(acts, GAct{Op: "recvall"})
		}
		if !k.outStream() && sends == 0 && !c.P("noreply", 0.2) {
			send()
		}
	default:
		acts = append(acts, GAct{Op: "recvall"})
		n := 1
		if k.outStream() {
			n = c.N("outs", 6)
			if c.P("manyouts", 0.1) {
				n = 20 + c.N("manyn", 40)
			}
		} else if x := c.N("card", 12); x == 10 {
			n = 0
		} else if x == 11 {
			n = 2
		}
		for i := 0; i < n; i++ {
			pause(i)
			send()
		}
		pause(99)
	}
	if c.P("err", 0.2) {
		code := []codes.Code{codes.NotFound, codes.Unavailable, codes.Canceled, codes.DeadlineExceeded, codes.Internal, codes.Unauthenticated, codes.Unknown, codes.Code(77)}[c.N("code", 8)]
		at := len(acts)
		if c.P("errearly", 0.3) {
			at = c.N("errat", len(acts)+1)
		}
		acts = append(acts[:at:at], append([]GAct{{Op: "status", Code: code, Val: c.Pick("msg", "no such thing", "it said: no", "", "ünïcode ☃")}}, acts[at:]...)...)
	}
	k.acts = acts
}

// finish sets up the rest of the command line.
func (k *gcase) finish(args ...string) {
	c, l := k.c, k.g.L
	if k.tls == nil && c.P("tls", 0.2) {
		k.secure("")
	}
	for i, n := 0, c.N("headers", 4); i < n; i++ {
		h := c.Pick(fmt.Sprintf("header%d", i), "x-a:1", "x-a:2", "X-A:3", "x-b:with:colon", "X-C: spaced", "authorization:Bearer abc==", "x-d:", "x-e:a b", "x-url:http://h:1/p?q=1")
		l.Args = append(l.Args, []string{"-H", "--header"}[c.N(fmt.Sprintf("hflag%d", i), 2)], h)
		kv := strings.SplitN(h, ":", 2)
		k.headers = append(k.headers, strings.ToLower(strings.TrimSpace(kv[0]))+"="+strings.TrimSpace(kv[1]))
	}
	l.Args = append(l.Args, "--address", c.Pick("address", "srv:80", "tcp://srv:80"), "--method", "rpc.S/"+k.method)
	l.Args = append(l.Args, args...)
	l.GRPC = func(s *Sim) *GServer {
		k.srv = s.GRPC("srv:80", func(string, int) []GAct { return k.acts }, k.tls...)
		return k.srv
	}
	var a []string
	for _, x := range k.acts {
		a = append(a, x.String())
	}
	c.Sample("%s; stdin %q; server: %s", strings.Join(l.Args, " "), firstN(k.text, 200), strings.Join(a, " "))
}

func full(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// printed splits the output into documents of responses and the rest.
func (k *gcase) printed(out string) (docs []interface{}, other []string, det map[string][]string) {
	det = map[string][]string{}
	for _, line := range strings.Split(out, "\n") {
		var v interface{}
		if !strings.HasPrefix(line, "{") || json.Unmarshal([]byte(line), &v) != nil {
			if line != "" {
				other = append(other, line)
			}
			continue
		}
		if k.details {
			m, ok := v.(map[string]interface{})
			if ok && len(m) == 1 {
				known := true
				for key, x := range m {
					switch key {
					case "response":
						docs = append(docs, x)
					case "headers", "trailers", "status":
						t, _ := json.Marshal(x)
						det[key] = append(det[key], string(t))
					default:
						known = false
					}
				}
				if known {
					continue
				}
			}
			docs = append(docs, fmt.Sprintf("unexpected %s", line))
			continue
		}
		docs = append(docs, v)
	}
	return
}

func isPrefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// judge compares what both sides saw.
func (k *gcase) judge(s *Sim, r *Run, clean bool) {
	c := k.c
	if !r.P.Exited() {
		return
	}
	want := k.inputs
	if !k.inStream() && len(want) == 0 && k.badAt < 0 {
		want = []string{"/0"}
	}
	usable := k.badAt < 0 && (k.inStream() || len(k.inputs) <= 1)
	whatever := fmt.Sprintf("; input %q, server %s; faults: %s", firstN(k.text, 300), k.story(), faultsOf(s))
	// what the server got
	delivered := 0
	for _, call := range k.srv.Calls {
		if !strings.HasSuffix(call.Method, "/"+k.method) {
			c.Violate("C11.request", "called %s", call.Method)
		}
		if len(call.Got) > 0 {
			delivered++
		}
		most := want
		if k.badAt >= 0 {
			most = most[:k.badAt]
		}
		if !isPrefix(call.Got, most) {
			c.Violate("C11.request", "the server received %q instead of %q%s", call.Got, most, whatever)
			return
		}
		if call.GotEOF {
			if !usable {
				c.Violate("C11.request", "the request stream was ended as if it was complete, but the input is unusable%s", whatever)
				return
			}
			if len(call.Got) != len(want) {
				c.Violate("C11.request", "the request stream was ended after %q instead of %q%s", call.Got, want, whatever)
				return
			}
			c.Hit("c11.all_sent")
		}
		have := map[string][]string{}
		for _, h := range k.headers {
			kv := strings.SplitN(h, "=", 2)
			have[kv[0]] = append(have[kv[0]], kv[1])
		}
		for key, vs := range have {
			if !sameStrings(call.Headers[key], vs) {
				c.Violate("C11.headers", "the server received %q: %q instead of %q%s", key, call.Headers[key], vs, whatever)
				return
			}
		}
	}
	if delivered > 1 {
		c.Violate("C11.request", "messages were delivered %d times%s", delivered, whatever)
		return
	}
	if !usable && !k.inStream() && len(k.srv.Calls) > 0 {
		c.Violate("C11.request", "the call was made with unusable input%s", whatever)
		return
	}
	// what was printed
	docs, other, det := k.printed(r.Stdout())
	var call *GCall
	if n := len(k.srv.Calls); n > 0 {
		call = k.srv.Calls[n-1]
	}
	var sent []interface{}
	printable := true
	if call != nil {
		for _, t := range call.Sent {
			var v interface{}
			if t == "?unprintable" {
				printable = false
				continue
			}
			if json.Unmarshal([]byte(t), &v) != nil {
				panic("sent " + t)
			}
			if len(v.(map[string]interface{})) > 0 {
				sent = append(sent, v)
			}
		}
	}
	okCall := call != nil && call.Ended && call.Status == codes.OK
	single := call != nil && len(call.Sent) == 1
	for i, d := range docs {
		if i >= len(sent) || !reflect.DeepEqual(d, sent[i]) {
			c.Violate("C11.response", "printed %s as document %d, the server had sent %s%s", js(d), i, js(sent), whatever)
			return
		}
	}
	if r.OK() {
		switch {
		case !okCall:
			c.Violate("C11.verdict", "exit 0, but the call did not end with OK%s", whatever)
		case !k.outStream() && !single:
			c.Violate("C11.verdict", "exit 0 after %d replies%s", len(call.Sent), whatever)
		case !printable:
			c.Violate("C11.response", "exit 0, but a response could not be printed%s", whatever)
		case len(docs) != len(sent):
			c.Violate("C11.response", "exit 0, but only %d of %d responses were printed%s", len(docs), len(sent), whatever)
		case !usable && call.GotEOF:
			c.Violate("C11.verdict", "exit 0, but the input is unusable%s", whatever)
		default:
			c.Hit("c11.ok")
		}
		if len(other) > 0 && !strings.Contains(strings.Join(k.g.L.Args, " "), "--debug") {
			c.Violate("C11.response", "exit 0, but it printed %q%s", other, whatever)
		}
	} else {
		if len(other) == 0 && !s.failedStdout(r) {
			c.Violate("C11.verdict", "exit %d without an error%s", r.Code(), whatever)
		}
		c.Hit("c11.failed")
	}
	if !clean {
		return
	}
	should := usable && okCall && printable && (k.outStream() || single)
	if should && !r.OK() {
		c.Violate("C11.verdict", "exit %d, output %q although everything is well%s", r.Code(), firstN(r.Stdout(), 300), whatever)
		return
	}
	if usable && len(k.srv.Calls) != 1 {
		c.Violate("C11.request", "%d calls were made: %s%s", len(k.srv.Calls), r.Desc(), whatever)
		return
	}
	if usable && k.outStream() && printable && len(docs) != len(sent) {
		c.Violate("C11.response", "only %d of %d responses were printed%s", len(docs), len(sent), whatever)
		return
	}
	if usable && call.Ended && call.Status != codes.OK && (k.outStream() || len(call.Sent) <= 1) {
		msg := ""
		for _, a := range k.acts {
			if a.Op == "status" {
				msg = a.Val
			}
		}
		if !strings.Contains(strings.Join(other, "\n"), msg) {
			c.Violate("C11.verdict", "the error %q of the server was not printed: %q%s", msg, other, whatever)
		}
		c.Hit("c11.status")
	}
	if should && k.details {
		for _, a := range k.acts {
			if a.Op == "status" {
				break
			}
			if a.Op == "header" && !strings.Contains(strings.Join(det["headers"], " "), "\"h-one\":[\"x\"]") {
				c.Violate("C11.response", "the header was not printed: %v%s", det, whatever)
			}
			if a.Op == "trailer" && !strings.Contains(strings.Join(det["trailers"], " "), "\"t-two\":[\"y\"]") {
				c.Violate("C11.response", "the trailer was not printed: %v%s", det, whatever)
			}
		}
	}
}

func js(v interface{}) string {
	b, _ := json.Marshal(v)
	return firstN(string(b), 400)
}

// story is what the server saw and did.
func (k *gcase) story() string {
	var b []string
	for _, call := range k.srv.Calls {
		x := fmt.Sprintf("call %s got %d messages eof %v sent %d", call.Method, len(call.Got), call.GotEOF, len(call.Sent))
		if call.Ended {
			x += fmt.Sprintf(" ended %s", call.Status)
		}
		b = append(b, x)
	}
	return strings.Join(b, ", ")
}

// failedStdout tells whether writing to standard output failed.
func (s *Sim) failedStdout(r *Run) bool {
	for _, e := range s.K.Log {
		if e.P == r.P && strings.HasPrefix(e.Fault, "stdout.") {
			return true
		}
	}
	return false
}

func gcfg(cfg kern.Config, c *Ctx) kern.Config {
	cfg = Quiet(cfg)
	cfg.NetDelayP = []float64{0, 0.1, 0.5}[c.N("netdelay", 3)]
	cfg.Horizon = 30 * time.Hour
	return cfg
}

func init() {
	register("C11", "calls", 5, func(c *Ctx) {
		k := c.gcall()
		k.input([]float64{0, 0, 0.5}[c.N("badness", 3)])
		k.script()
		k.finish("--call-timeout", "20h", "--connect-timeout", "19s")
		s := k.g.Machine("a", gcfg(c.Swarm("a"), c))
		r := k.g.L.Start(s, RunOpts{Stdin: k.source()})
		s.Run()
		if k.src != nil && !r.P.Exited() {
			return
		}
		k.judge(s, r, true)
	})
	register("C11", "dialogue", 2, func(c *Ctx) {
		// the user answers what the server says: a response has to be printed when it comes
		k := c.gcall()
		k.method, k.stdin, k.wild = "Bidi", true, false
		l := k.g.L
		l.Args = append(l.Args, "--stdin")
		l.HasIn, l.Stdin = false, ""
		sends := 0
		say := func(i int) {
			for j, n := 0, c.N(fmt.Sprintf("say%d", i), 3); j < n; j++ {
				if c.P(fmt.Sprintf("think%d.%d", i, j), 0.3) {
					k.acts = append(k.acts, GAct{Op: "sleep", D: time.Duration(1+c.N("think", 4000)) * time.Millisecond})
				}
				raw, m, _ := c.response(fmt.Sprintf("out%d", sends), 0, false, k.other)
				if len(m) == 0 {
					raw, m = []byte{0x40, 1}, map[string]interface{}{"flag": true}
				}
				sends++
				k.acts = append(k.acts, GAct{Op: "sendraw", Val: full(m), Raw: raw})
			}
		}
		src := &kern.Source{}
		n := 1 + c.N("turns", 5)
		var seen []int
		say(0)
		for i := 0; i < n; i++ {
			seen = append(seen, sends)
			v := fmt.Sprintf("in%d%s", i, c.Pick(fmt.Sprintf("v%d", i), "", "{}", strings.Repeat("z", 3000)))
			text := full(map[string]interface{}{"value": v, "n": i}) + c.Pick(fmt.Sprintf("sep%d", i), "\n", "", " \n")
			k.inputs = append(k.inputs, fmt.Sprintf("%s/%d", v, i))
			k.text += text
			src.Chunks = append(src.Chunks, len(text))
			src.Delays = append(src.Delays, time.Duration(c.N(fmt.Sprintf("type%d", i), 3))*time.Second)
			k.acts = append(k.acts, GAct{Op: "recv"})
			say(i + 1)
		}
		seen = append(seen, sends)
		k.acts = append(k.acts, GAct{Op: "recvall"})
		src.Data = []byte(k.text)
		k.finish("--call-timeout", "10m", "--connect-timeout", "2m")
		s := k.g.Machine("a", gcfg(c.Swarm("a"), c))
		var r *Run
		src.Gate = func(i int) bool {
			docs, _, _ := k.printed(r.Stdout())
			return i < len(seen) && len(docs) >= seen[i]
		}
		r = l.Start(s, RunOpts{Stdin: src})
		s.Run()
		if !r.OK() {
			docs, _, _ := k.printed(r.Stdout())
			c.Violate("C11.prompt", "%d responses are printed, and the user waits for what the server said already: %s; server %s", len(docs), r.Desc(), k.story())
			return
		}
		k.judge(s, r, true)
	})
	register("C11", "faults", 4, func(c *Ctx) {
		k := c.gcall()
		k.input(0.1)
		k.script()
		k.finish("--call-timeout", c.Pick("ct", "2m", "3h", "90s"))
		a := k.g.Machine("a", gcfg(c.Swarm("a"), c))
		opts := RunOpts{Stdin: k.source(), Faulty: true}
		k.g.L.Start(a, opts)
		a.Run()
		t := c.aim(a, 1+c.N("two", 2), func(e kern.EligibleOp, kind string) bool {
			return strings.HasPrefix(kind, "net.") || strings.HasPrefix(kind, "std")
		})
		if t == nil {
			return
		}
		b := k.g.Twin("b", a)
		b.K.Target = t
		opts.Stdin = k.source()
		r := k.g.L.Start(b, opts)
		b.Run()
		k.judge(b, r, false)
	})
	register("C11", "peer", 3, func(c *Ctx) {
		k := c.gcall()
		k.input(0.05)
		k.script()
		at := c.N("at", len(k.acts)+1)
		x := GAct{Op: c.Pick("what", "reset", "sendbad", "stall", "reset")}
		k.acts = append(k.acts[:at:at], append([]GAct{x}, k.acts[at:]...)...)
		k.finish("--call-timeout", "4m")
		s := k.g.Machine("a", gcfg(c.Swarm("a"), c))
		src := k.source()
		if src != nil && c.P("readerr", 0.3) {
			src.Err = syscall.EIO
			if k.badAt < 0 {
				k.badAt = len(k.inputs)
			}
		}
		r := k.g.L.Start(s, RunOpts{Stdin: src})
		if c.P("kill", 0.3) {
			d := time.Duration(c.N("killat", 20000)) * time.Millisecond
			s.K.At(d, func() {
				for _, x := range k.srv.Conns {
					if c.P("how", 0.5) {
						x.Reset()
					} else {
						x.Stall()
					}
				}
			})
		}
		s.Run()
		for _, call := range k.srv.Calls {
			for i, t := range call.Sent {
				if t == "?bad" {
					call.Sent[i] = "?unprintable"
				}
			}
		}
		k.judge(s, r, false)
	})
	register("C11", "usage", 1, func(c *Ctx) {
		// what cannot be called
		k := c.gcall()
		k.input(0)
		k.script()
		k.finish("--call-timeout", "4m")
		l := k.g.L
		set := func(flag, v string) {
			var a []string
			for i := 0; i < len(l.Args); i++ {
				if l.Args[i] != flag {
					a = append(a, l.Args[i])
				} else if flag != "--stdin" {
					i++
				}
			}
			if v != "\x00" {
				a = append(a, flag, v)
			}
			l.Args = a
		}
		what := c.Pick("wrong", "method", "method", "address", "nomethod", "noaddress", "noinput", "bothinputs", "header", "time", "argument")
		switch what {
		case "method":
			set("--method", c.Pick("m", "rpc.S/Nope", "rpc.Nope/Unary", "Nope/Unary", "rpc.S."+k.method, "rpc.S", "rpc.S/", "/"+k.method, "/", "rpc.S/"+k.method+"/", "rpc.S/"+k.method+"/x", "RPC.S/"+k.method, "rpc.S/"+strings.ToLower(k.method), "S/"+k.method, "rpc/"+k.method, "rpc.S /"+k.method, "rpc.SS/"+k.method, "rpc.s/"+k.method, "rpc.Req/"+k.method))
		case "address":
			set("--address", c.Pick("a", "http://srv:80", "srv", "tcp://", "://srv:80", "srv:notaport"))
		case "nomethod":
			set("--method", "\x00")
		case "noaddress":
			set("--address", "\x00")
		case "noinput":
			set("--stdin", "\x00")
			set("--data", "\x00")
		case "bothinputs":
			set("--stdin", "\x00")
			set("--data", "{}")
			l.Args = append(l.Args, "--stdin")
		case "header":
			l.Args = append(l.Args, "-H", c.Pick("h", "nocolon", "no colon", "a=b"))
		case "time":
			l.Args = append(l.Args, c.Pick("tf", "--call-timeout", "--connect-timeout", "--keepalive-time"), c.Pick("tv", "5", "1x", "1m 5s", "s", "-", "five"))
		case "argument":
			l.Args = append(l.Args, "no/such/dir")
		}
		s := k.g.Machine("a", gcfg(c.Swarm("a"), c))
		var src *kern.Source
		if contains(l.Args, "--stdin") {
			if src = k.source(); src == nil {
				src = &kern.Source{Data: []byte(k.text)}
			}
		}
		r := l.Start(s, RunOpts{Stdin: src})
		s.Run()
		if len(k.srv.Calls) > 0 || r.OK() {
			c.Violate("C11.usage", "prototool %s: %s; server %s", strings.Join(l.Args, " "), r.Desc(), k.story())
			return
		}
		c.Hit("c11.usage_" + what)
	})
	register("C11", "gone", 2, func(c *Ctx) {
		// the connection does not last until the call
		k := c.gcall()
		k.input(0.05)
		k.script()
		k.finish("--call-timeout", "4m", "--connect-timeout", "5s")
		s := k.g.Machine("a", gcfg(c.Swarm("a"), c))
		h := s.K.Net.Hosts["srv:80"]
		accept := h.Accept
		after := c.PickDur("after", 0, time.Microsecond, 300*time.Microsecond, time.Millisecond, 2*time.Millisecond, 5*time.Millisecond, 10*time.Millisecond, 30*time.Millisecond, 3*time.Second)
		then := c.Pick("then", "refuse", "refuse", "blackhole", "silent", "serve")
		lost := 1 + c.N("lost", 2)
		h.Accept = func(x *kern.Conn) {
			accept(x)
			if lost--; lost >= 0 {
				s.K.After(after, func() {
					if lost <= 0 {
						h.Mode = then
					}
					x.Reset()
				})
			}
		}
		r := k.g.L.Start(s, RunOpts{Stdin: k.source()})
		s.Run()
		k.judge(s, r, false)
		if len(k.srv.Calls) == 0 {
			c.Hit("c11.no_call")
		}
	})
}
