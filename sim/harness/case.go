//go:build go1.25

// Package harness runs cases: a case is one seeded workload on the simulated machine, with the oracles of one property.
package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/kern"
	"verif.local/sim/progs"
	"verif.local/sim/rt"
	"verif.local/sim/sos"
)

// DoFunc is the entry point of the program under test.
type DoFunc func(args []string, stdin io.Reader, stdout, stderr io.Writer) int

// Do is set by the main package.
var Do DoFunc

// Case identifies one execution completely.
type Case struct {
	Prop     string         `json:"property"`
	Scenario string         `json:"scenario"`
	Seed     uint64         `json:"seed"`
	RTSeed   uint64         `json:"rt_seed"`
	Tier     string         `json:"tier"`
	Replay   bool           `json:"replay"`
	Forced   map[string]int `json:"choices,omitempty"`
	WantLog  bool           `json:"-"`
	LogOn    bool           `json:"log,omitempty"`
}

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"` // stable kind of the violation
	Msg   string `json:"msg"`
}

// Report is the outcome of a case.
type Report struct {
	Violations []Violation    `json:"violations,omitempty"`
	Choices    map[string]int `json:"choices,omitempty"`
	Sims       int            `json:"sims"`
	Steps      int            `json:"steps"`
	SimNS      int64          `json:"sim_ns"`
	Fired      map[string]int `json:"fired,omitempty"`
	Hits       map[string]int `json:"hits,omitempty"`
	Sigs       []uint64       `json:"sigs,omitempty"`
	Eligible   int            `json:"eligible"`
	LogHash    uint64         `json:"log_hash"`
	Log        []string       `json:"log,omitempty"`
	Sample     []string       `json:"sample,omitempty"`
	Err        string         `json:"err,omitempty"`
}

// Ctx is the state of a running case.
type Ctx struct {
	Case *Case
	Ch   *kern.Chooser
	Rep  *Report
	sims []*Sim
}

// Sim is one simulated machine of a case.
type Sim struct {
	C    *Ctx
	K    *kern.Kernel
	Name string
	Runs []*Run
	Muts []Mutation
	wd   *World
	done bool

	choices string // prefix of choice keys
}

// Mutation is a change to the file system made by a process.
type Mutation struct {
	Step int
	At   time.Duration
	P    *kern.Proc
	Kind string
	Path string
	Node *kern.Inode
}

// Violate records a violation of the property under check.
func (c *Ctx) Violate(class, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	for _, v := range c.Rep.Violations {
		if v.Class == class && v.Msg == msg {
			return
		}
	}
	c.Rep.Violations = append(c.Rep.Violations, Violation{class, msg})
}

// Failed tells whether a violation was found.
func (c *Ctx) Failed() bool { return len(c.Rep.Violations) > 0 }

// Hit counts a rare condition.
func (c *Ctx) Hit(name string) { c.Rep.Hits[name]++ }

// N picks one of n alternatives uniformly; 0 is the simplest.
func (c *Ctx) N(key string, n int) int {
	if n <= 1 {
		return 0
	}
	return c.Ch.Choose("gen/"+key, n, float64(n-1)/float64(n))
}

// P is true with probability p.
func (c *Ctx) P(key string, p float64) bool { return c.Ch.Choose("gen/"+key, 2, p) == 1 }

// Pick picks a string.
func (c *Ctx) Pick(key string, list ...string) string { return list[c.N(key, len(list))] }

// PickDur picks a duration.
func (c *Ctx) PickDur(key string, list ...time.Duration) time.Duration {
	return list[c.N(key, len(list))]
}

// Subset keeps each element with probability p.
func (c *Ctx) Subset(key string, list []string, p float64) map[string]bool {
	m := map[string]bool{}
	for _, x := range list {
		if c.P(key+"/"+x, p) {
			m[x] = true
		}
	}
	return m
}

// Sample adds a line to the description of the case kept in the evidence.
func (c *Ctx) Sample(format string, args ...interface{}) {
	c.Rep.Sample = append(c.Rep.Sample, fmt.Sprintf(format, args...))
}

var latencies = []time.Duration{time.Millisecond, 7 * time.Millisecond, 60 * time.Millisecond, 400 * time.Millisecond, 1700 * time.Millisecond}

// Swarm is a random configuration of schedule and latencies, without faults.
func (c *Ctx) Swarm(name string) kern.Config {
	cfg := kern.Config{}
	cfg.Policy = c.Pick("cfg/"+name+"/policy", "fifo", "uniform", "sticky", "prio", "uniform")
	switch c.N("cfg/"+name+"/lat", 4) {
	case 1:
		cfg.LatencyP, cfg.Latencies = 0.05, latencies
	case 2:
		cfg.LatencyP, cfg.Latencies = 0.3, latencies[:3]
	case 3:
		cfg.LatencyP, cfg.Latencies = 0.02, latencies
	}
	if c.P("cfg/"+name+"/short", 0.25) {
		cfg.ShortP = 0.2
	}
	if c.P("cfg/"+name+"/yield", 0.3) {
		cfg.YieldP = []float64{0.1, 0.5, 0.02}[c.N("cfg/"+name+"/yieldp", 3)]
	}
	cfg.NumCPU = []int{4, 1, 2, 8, 3}[c.N("cfg/"+name+"/cpu", 5)]
	return cfg
}

// Plain is the natural schedule without latencies or faults.
func Plain() kern.Config { return kern.Config{Plain: true, Benign: true, Policy: "fifo", NumCPU: 4} }

// Quiet marks a configuration as free of faults and crashes.
func Quiet(cfg kern.Config) kern.Config { cfg.Benign = true; return cfg }

// Sim creates a machine. Names must be unique within the case.
func (c *Ctx) Sim(name string, cfg kern.Config) *Sim { return c.sim(name, name, cfg) }

// Twin creates a machine that makes the same choices as another one as long as nothing differs.
func (c *Ctx) Twin(name string, of *Sim) *Sim { return c.sim(name, of.choices, of.K.Cfg) }

// Reseed seeds the random sources that modules keep for themselves.
var Reseed = func(int64) {}

func (c *Ctx) sim(name, choices string, cfg kern.Config) *Sim {
	for _, s := range c.sims {
		s.K.Finish()
	}
	cfg.Prefix = choices + "/"
	if cfg.Plain || c.Case.RTSeed == 0 {
		rt.Seed(1, 0)
	} else {
		h := kern.Hash64(fmt.Sprintf("%d/%s", c.Case.RTSeed, choices))
		rt.Seed(h, h|1)
	}
	Reseed(int64(kern.Hash64(fmt.Sprintf("%d/%s/modules", c.Case.RTSeed, choices))))
	rt.SetID(kern.Hash64("main/" + choices))
	s := &Sim{C: c, Name: name, choices: choices}
	s.K = kern.New(c.Ch, cfg)
	progs.Install(s.K)
	s.K.FS.OnMutate = func(p *kern.Proc, kind, path string, n *kern.Inode) {
		if p != nil {
			s.Muts = append(s.Muts, Mutation{s.K.Step, s.K.Now(), p, kind, path, n})
		}
	}
	c.sims = append(c.sims, s)
	return s
}

// Run is one invocation of prototool.
type Run struct {
	S     *Sim
	P     *kern.Proc
	Args  []string
	Out   *kern.Sink
	Err   *kern.Sink
	In    *kern.Source
	Panic string
}

// RunOpts configures an invocation.
type RunOpts struct {
	Cwd       string
	Env       map[string]string
	Stdin     *kern.Source
	Stdout    *kern.Sink
	NoStdout  bool
	Stderr    *kern.Sink
	NumCPU    int
	Crashable bool
	Faulty    bool
	KidFaulty bool
	Walk      string // the walk timeout: "" for practically none, "default" to leave it alone
}

func walkFlag(o RunOpts, args []string) []string {
	if o.Walk == "default" || len(args) == 0 {
		return args
	}
	v := o.Walk
	if v == "" {
		v = "24h"
	}
	switch args[0] {
	case "all", "break", "compile", "descriptor-set", "files", "format", "generate", "grpc", "lint", "x":
	case "cache":
		if len(args) < 2 || args[1] != "update" {
			return args
		}
	default:
		return args
	}
	for _, a := range args {
		if a == "--help" || a == "-h" {
			return args
		}
	}
	return append(append([]string(nil), args...), "--walk-timeout="+v)
}

// Start starts prototool (scheduler context or before Run).
func (s *Sim) Start(label string, o RunOpts, args ...string) *Run {
	args = walkFlag(o, args)
	r := &Run{S: s, Args: args, Out: o.Stdout, Err: &kern.Sink{Limit: -1}, In: o.Stdin}
	if r.Out == nil {
		r.Out = &kern.Sink{Limit: -1}
	}
	if o.Stderr != nil {
		r.Err = o.Stderr
	}
	if r.In == nil {
		r.In = &kern.Source{}
	}
	std := [3]*kern.FD{
		{Kind: "source", Source: r.In, Read: true, Path: "stdin"},
		{Kind: "sink", Sink: r.Out, Write: true, Path: "stdout"},
		{Kind: "sink", Sink: r.Err, Write: true, Path: "stderr"},
	}
	env := map[string]string{"HOME": Home, "PATH": "/usr/bin", "TMPDIR": ""}
	delete(env, "TMPDIR")
	for n, v := range o.Env {
		if v == "-" {
			delete(env, n)
			continue
		}
		env[n] = v
	}
	cwd := o.Cwd
	if cwd == "" {
		cwd = Work
	}
	cwd = s.K.FS.Canon("/", cwd)
	r.P = s.K.Spawn(label, "prototool", nil, append([]string{"prototool"}, args...), env, cwd, std, func(p *kern.Proc) (code int) {
		defer func() {
			if e := recover(); e != nil {
				r.Panic = fmt.Sprint(e)
				s.C.Violate(s.C.Case.Prop+".panic", "prototool %s panicked: %v\n%s", strings.Join(args, " "), e, trimStack(debug.Stack()))
				code = 2
			}
		}()
		return Do(args, sos.Stdin, sos.Stdout, sos.Stderr)
	})
	if o.NumCPU > 0 {
		r.P.NumCPU = o.NumCPU
	}
	r.P.Crashable = o.Crashable
	r.P.Faulty = o.Faulty
	r.P.KidFaulty = o.KidFaulty
	s.Runs = append(s.Runs, r)
	return r
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "uber/prototool/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

// Stdout is what the run printed.
func (r *Run) Stdout() string { return string(r.Out.Data) }

// Code is the exit code, or -1 if it did not exit by itself.
func (r *Run) Code() int {
	if !r.P.Exited() {
		return -1
	}
	return r.P.Code
}

// OK tells whether the run exited 0.
func (r *Run) OK() bool { return r.P.Exited() && r.P.Code == 0 }

// Desc describes the outcome.
func (r *Run) Desc() string {
	return fmt.Sprintf("prototool %s: %s, output %q", strings.Join(r.Args, " "), r.P.Desc(), clip(r.Stdout(), 400))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Do runs prototool to the end on a machine that is otherwise idle.
func (s *Sim) Do(label string, o RunOpts, args ...string) *Run {
	r := s.Start(label, o, args...)
	s.Run()
	return r
}

// Run runs the machine until everything ended.
func (s *Sim) Run() {
	s.K.Run()
	if s.K.Outcome != "" {
		var w []string
		for _, p := range s.K.Procs {
			if !p.Dead && p.Prog != "remote" {
				w = append(w, p.Label+" ("+strings.Join(p.Argv, " ")+")")
			}
		}
		s.C.Violate(s.C.Case.Prop+"."+s.K.Outcome, "the machine never came to rest: %s after %s and %d steps; still running: %s; waiting: %s",
			s.K.Outcome, s.K.Now(), s.K.Step, strings.Join(w, ", "), clip(strings.Join(s.K.Pending(), "; "), 600))
		s.K.Finish()
	}
}

// collect adds the machine to the report.
func (s *Sim) collect() {
	rep := s.C.Rep
	rep.Sims++
	rep.Steps += s.K.Step
	rep.SimNS += int64(s.K.Now())
	for n, v := range s.K.Fired {
		rep.Fired[n] += v
	}
	for n, v := range s.K.Hits() {
		rep.Hits[n] += v
	}
	rep.Eligible += len(s.K.Eligible)
	sig := s.K.Signature()
	rep.Sigs = append(rep.Sigs, sig)
	rep.LogHash = rep.LogHash*0x100000001b3 ^ sig
	for _, r := range s.Runs {
		rep.LogHash = rep.LogHash*0x100000001b3 ^ kern.Hash64(r.P.Desc()+r.Stdout()+string(r.Err.Data))
	}
	for _, v := range s.K.Violations() {
		cls := s.C.Case.Prop + ".monitor"
		if i := strings.Index(v, "|"); i > 0 && i < 40 {
			cls, v = s.C.Case.Prop+"."+v[:i], v[i+1:]
		}
		s.C.Violate(cls, "%s", v)
	}
	if s.C.Case.LogOn {
		rep.Log = append(rep.Log, "=== machine "+s.Name)
		for _, e := range s.K.Log {
			rep.Log = append(rep.Log, e.String())
		}
		for _, r := range s.Runs {
			rep.Log = append(rep.Log, "--- "+r.P.Label+": "+r.Desc())
			if len(r.Err.Data) > 0 {
				rep.Log = append(rep.Log, "--- stderr: "+clip(string(r.Err.Data), 2000))
			}
		}
	}
}

// Scenario is one family of cases.
type Scenario struct {
	Name   string
	Weight int
	Run    func(*Ctx)
}

var scenarios = map[string][]Scenario{}

func register(prop, name string, weight int, f func(*Ctx)) {
	scenarios[prop] = append(scenarios[prop], Scenario{name, weight, f})
}

// Execute runs a case in this process.
func Execute(cs *Case) *Report {
	rep := &Report{Fired: map[string]int{}, Hits: map[string]int{}}
	var f func(*Ctx)
	for _, s := range scenarios[cs.Prop] {
		if s.Name == cs.Scenario {
			f = s.Run
		}
	}
	if f == nil {
		rep.Err = "unknown scenario " + cs.Prop + "/" + cs.Scenario
		return rep
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rt.Seed(1, 0)
		rt.Run(func() {
			c := &Ctx{Case: cs, Rep: rep}
			c.Ch = &kern.Chooser{Seed: kern.Hash64(fmt.Sprintf("%s/%s/%d", cs.Prop, cs.Scenario, cs.Seed)), Replay: cs.Replay, Forced: cs.Forced, Choices: map[string]int{}}
			func() {
				defer func() {
					if e := recover(); e != nil {
						rep.Err = fmt.Sprintf("harness: %v\n%s", e, debug.Stack())
					}
				}()
				f(c)
				for _, s := range c.sims {
					s.collect()
				}
				rep.Choices = c.Ch.Choices
			}()
			// goroutines of ended processes stay parked for ever, so the bubble cannot end: report and leave
			writeReport(rep)
			os.Exit(0)
		})
	}()
	<-done
	return rep
}

func writeReport(rep *Report) {
	b, err := json.Marshal(rep)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Stdout.Write(b)
}

func runCaseFromStdin() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(3)
	}
	cs := &Case{}
	if err := json.NewDecoder(bytes.NewReader(b)).Decode(cs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	rep := Execute(cs)
	writeReport(rep)
}

func sortedKeys(m map[string]string) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = syscall.SIGINT

func toMode(n int) fs.FileMode { return fs.FileMode(n) }
