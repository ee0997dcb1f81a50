//go:build go1.25

// Package kern is the simulated operating system: processes, goroutines parked on system calls, a seeded scheduler,
// an in-memory file system, pipes, signals, file locks, HTTP origins and network connections, with fault injection.
// All of it runs inside one synctest bubble; nothing here touches the real system.
package kern

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif.local/sim/rt"
)

// Config decides every nondeterministic choice of a run.
type Config struct {
	Prefix     string          // of choice keys
	Benign     bool            // no faults and no crashes, whatever is forced
	Plain      bool            // every choice is the default one
	Policy     string          // "uniform", "sticky", "prio", "fifo"
	LatencyP   float64         // probability that an operation takes time
	Latencies  []time.Duration // how long then
	FaultP     float64         // probability of a fault per eligible operation
	Faults     map[string]bool // enabled fault kinds (nil: none)
	MaxFaults  int
	CrashP     float64 // probability of a crash (SIGKILL) per operation of a process marked Crashable
	MaxCrashes int
	ShortP     float64 // probability of a legal short read or write
	NetDelayP  float64 // probability that a network segment is delayed
	YieldP     float64 // probability that a goroutine is descheduled between two statements
	NumCPU     int
	MaxSteps   int
	Horizon    time.Duration // simulated time after which a run counts as hung
}

// Event is one executed operation.
type Event struct {
	Step  int
	T     time.Duration
	Proc  string
	G     int
	Kind  string
	Arg   string
	Fault string
	Res   string
	P     *Proc `json:"-"`
}

func (e Event) String() string {
	s := fmt.Sprintf("%5d %10s %-14s g%d %-9s %s", e.Step, e.T, e.Proc, e.G, e.Kind, e.Arg)
	if e.Res != "" {
		s += " = " + e.Res
	}
	if e.Fault != "" {
		s += "  !! " + e.Fault
	}
	return s
}

// Kernel is one simulated machine (with the remote hosts it talks to).
type Kernel struct {
	Cfg      Config
	FS       *FS
	Net      *Net
	Programs map[string]func(*Proc) int
	Procs    []*Proc // every process ever started, in order
	Log      []Event
	Ch       *Chooser
	Eligible []EligibleOp   // operations at which a fault could have been injected (fault kinds enabled or not)
	Fired    map[string]int // faults that fired, by kind
	Step     int
	Crashes  int
	Faults   int
	Outcome  string // "", "hang", "livelock"
	// OnEvent is called after every executed operation, in scheduler context.
	OnEvent func(*Event)
	// OnStep is called before a scheduling decision, in scheduler context.
	OnStep func()
	// OnExec is called when a program image is executed.
	OnExec func(p *Proc, path string, node *Inode)
	// ExecArgv is the argument list while OnExec is called.
	ExecArgv []string
	// OnOpen is called for a successful open.
	OnOpen func(p *Proc, path string, node *Inode, write bool)
	// CrashFilter, if set, limits at which operations crashes are injected.
	CrashFilter func(op *Op) bool
	// FaultFilter, if set, limits at which operations faults are injected.
	FaultFilter func(p *Proc, kind, arg string) bool
	// Target forces choices of this run by key ("fault/..." or "crash/..."), for faults aimed at one operation.
	Target map[string]int
	// CrashOps lists the operations of crashable processes.
	CrashOps []EligibleOp

	start      time.Time
	pending    []*Op
	wake       chan struct{}
	lastG      uint64
	lastProc   *Proc
	events     []*scripted
	nextPid    int
	prio       map[string]uint64
	stopped    bool
	violations []string
	flags      map[string]int
}

// EligibleOp identifies an operation at which faults may be injected.
type EligibleOp struct {
	Key   string
	Kinds []string
	Proc  string
	Kind  string
	Arg   string
}

type scripted struct {
	when func() bool
	at   time.Time // if when is nil
	f    func()
	done bool
	bg   bool // does not keep the run alive
	conn *Conn
	seq  int
}

// Proc is a simulated process.
type Proc struct {
	K         *Kernel
	Label     string
	Prog      string
	Pid, Ppid int
	Pgid      int
	Idx       int
	Argv      []string
	Env       map[string]string
	Cwd       string
	NumCPU    int
	Crashable bool
	Faulty    bool // faults may be injected into its operations
	KidFaulty bool // and into those of its descendants
	Started   time.Duration
	Ended     time.Duration
	Dead      bool
	Code      int // exit code if it exited
	Sig       syscall.Signal
	Parent    *Proc
	Kids      []*Proc
	FDs       map[int]*FD
	Std       [3]*FD
	Sigs      []*SigReg
	Ignored   map[syscall.Signal]bool
	Got       []syscall.Signal // signals delivered
	Opens     int              // peak number of open descriptors
	Info      map[string]string
	Exe       *Inode
	Reaped    bool
	killAt    int

	nkids  map[string]int
	gs     map[uint64]*gstate
	gn     int
	opn    int
	yields int
	writes map[uintptr]uint64 // maps being written, by which goroutine
}

type gstate struct{ idx, n, y int }

// SigReg is a signal channel registration.
type SigReg struct {
	C    chan<- syscallSignal
	Send func(syscall.Signal)
	All  bool
	Set  map[syscall.Signal]bool
	Key  interface{}
}

type syscallSignal = interface{}

// Op is one pending system call.
type Op struct {
	P         *Proc
	G         uint64
	Gi        int
	Key       string
	Kind, Arg string
	Kinds     []string
	Ready     func() bool
	Exec      func(fault string) string
	notBefore time.Time
	admitted  bool
	done      chan struct{}
	arrival   int
}

// New creates a kernel. It must be called inside the bubble.
func New(ch *Chooser, cfg Config) *Kernel {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 100000
	}
	if cfg.Horizon == 0 {
		cfg.Horizon = 20 * time.Minute
	}
	if cfg.NumCPU == 0 {
		cfg.NumCPU = 4
	}
	k := &Kernel{
		Cfg:      cfg,
		Programs: map[string]func(*Proc) int{},
		Ch:       ch,
		Fired:    map[string]int{},
		start:    time.Now(),
		wake:     make(chan struct{}, 1),
		nextPid:  100,
		prio:     map[string]uint64{},
		flags:    map[string]int{},
	}
	k.FS = newFS(k)
	k.Net = newNet(k)
	return k
}

// Now is the simulated time since the start of the run.
func (k *Kernel) Now() time.Duration { return time.Since(k.start) }

// Violate records a violation found by a monitor during the run.
func (k *Kernel) Violate(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	for _, v := range k.violations {
		if v == s {
			return
		}
	}
	k.violations = append(k.violations, s)
}

// Violations returns what monitors recorded.
func (k *Kernel) Violations() []string { return k.violations }

// Hit counts that a rare condition was reached.
func (k *Kernel) Hit(name string) { k.flags[name]++ }

// Hits returns the counters of Hit.
func (k *Kernel) Hits() map[string]int { return k.flags }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Hash64 is a stable string hash for callers that need derived seeds.
func Hash64(s string) uint64 { return mix(hash(s)) }

// Chooser makes every choice of a case: from a seed, or from a recorded trace.
type Chooser struct {
	Seed    uint64
	Replay  bool           // take choices only from Forced (absent: 0)
	Forced  map[string]int // choices by key
	Choices map[string]int // non-zero choices made
}

// Choose makes the choice named key among n alternatives: 0 (the benign default) or, with probability p, one of 1..n-1.
func (c *Chooser) Choose(key string, n int, p float64) int {
	if n <= 1 {
		return 0
	}
	if v, ok := c.Forced[key]; ok {
		v = v % n
		if v != 0 {
			c.Choices[key] = v
		}
		return v
	}
	if c.Replay || p <= 0 {
		return 0
	}
	r := mix(c.Seed ^ hash(key))
	if float64(r>>11)/(1<<53) >= p {
		return 0
	}
	v := 1 + int(mix(r)%uint64(n-1))
	c.Choices[key] = v
	return v
}

// Choose makes a choice of this run.
func (k *Kernel) Choose(key string, n int, p float64) int {
	if v, ok := k.Target[key]; ok {
		return v % n
	}
	if k.Cfg.Plain {
		return 0
	}
	if k.Cfg.Benign && (strings.HasPrefix(key, "fault/") || strings.HasPrefix(key, "crash/")) {
		return 0
	}
	return k.Ch.Choose(k.Cfg.Prefix+key, n, p)
}

// ChooseUniform picks one of n alternatives with equal probability.
func (k *Kernel) ChooseUniform(key string, n int) int {
	if n <= 1 {
		return 0
	}
	return k.Choose(key, n, float64(n-1)/float64(n))
}

// Current returns the process of the current goroutine.
func Current() *Proc {
	p := (*Proc)(rt.Ctx())
	if p == nil {
		panic("verif: system call outside any simulated process")
	}
	return p
}

// TryCurrent is Current, or nil.
func TryCurrent() *Proc { return (*Proc)(rt.Ctx()) }

func vanish() { select {} }

func (p *Proc) gstate(id uint64) *gstate {
	g := p.gs[id]
	if g == nil {
		g = &gstate{idx: p.gn}
		p.gn++
		p.gs[id] = g
	}
	return g
}

// Op parks the current goroutine until the scheduler executes the operation. exec runs in scheduler context with the
// fault to inject ("" for none) and returns a short result for the log.
func (p *Proc) Op(kind, arg string, kinds []string, ready func() bool, exec func(fault string) string) {
	if p.Dead {
		vanish()
	}
	k := p.K
	id := rt.ID()
	g := p.gstate(id)
	op := &Op{P: p, G: id, Gi: g.idx, Kind: kind, Arg: arg, Kinds: kinds, Ready: ready, Exec: exec, done: make(chan struct{}),
		Key: fmt.Sprintf("%s/g%d/%d:%s", p.Label, g.idx, g.n, kind)}
	g.n++
	k.pending = append(k.pending, op)
	k.signal()
	<-op.done
	if p.Dead {
		vanish()
	}
}

var yieldTimes = []time.Duration{0, time.Millisecond, 10 * time.Millisecond, 50 * time.Millisecond}

// Yield deschedules the current goroutine, perhaps, if another one of the process is doing something. It reports
// whether it did.
func (p *Proc) Yield(site string) bool {
	k := p.K
	if p.Dead || k.Cfg.YieldP == 0 || p.yields >= 20 {
		return false
	}
	id := rt.ID()
	alone := true
	for _, op := range k.pending {
		if op.P == p && op.G != id {
			alone = false
			break
		}
	}
	if alone {
		return false
	}
	g := p.gstate(id)
	key := fmt.Sprintf("%s/g%d/y%d:yield", p.Label, g.idx, g.y)
	g.y++
	c := k.Choose(key, 1+len(yieldTimes), k.Cfg.YieldP)
	if c == 0 {
		return false
	}
	p.yields++
	k.Hit("goroutine descheduled between statements")
	op := &Op{P: p, G: id, Gi: g.idx, Kind: "yield", Arg: site, done: make(chan struct{}), Key: key, admitted: true,
		notBefore: time.Now().Add(yieldTimes[c-1]), Exec: func(string) string { return "" }}
	k.pending = append(k.pending, op)
	k.signal()
	<-op.done
	if p.Dead {
		vanish()
	}
	return true
}

// MapWrite marks the map at m as being written by the current goroutine, perhaps for a while. Another goroutine that
// writes it meanwhile crashes the program, as the Go runtime does.
func (p *Proc) MapWrite(m uintptr, site string) {
	id := rt.ID()
	if g, ok := p.writes[m]; ok && g != id {
		panic("concurrent map writes (" + site + ")")
	}
	if p.writes == nil {
		p.writes = map[uintptr]uint64{}
	}
	p.writes[m] = id
	p.Yield(site)
	delete(p.writes, m)
}

// Inline performs an operation immediately, without a scheduling point. Locks held by the caller make parking unsafe.
func (p *Proc) Inline(kind, arg string, exec func() string) {
	if p.Dead {
		vanish()
	}
	g := p.gstate(rt.ID())
	res := exec()
	p.K.record(p, g.idx, kind, arg, "", res)
}

func (k *Kernel) signal() {
	select {
	case k.wake <- struct{}{}:
	default:
	}
}

func (k *Kernel) record(p *Proc, g int, kind, arg, fault, res string) {
	e := Event{Step: k.Step, T: k.Now(), Proc: p.Label, G: g, Kind: kind, Arg: arg, Fault: fault, Res: res, P: p}
	k.Log = append(k.Log, e)
	if k.OnEvent != nil {
		k.OnEvent(&k.Log[len(k.Log)-1])
	}
}

// At schedules f in scheduler context at simulated time d.
func (k *Kernel) At(d time.Duration, f func()) {
	k.events = append(k.events, &scripted{at: k.start.Add(d), f: f})
	k.signal()
}

// After schedules f in scheduler context after d from now.
func (k *Kernel) After(d time.Duration, f func()) { k.At(k.Now()+d, f) }

// When schedules f in scheduler context as soon as cond holds (checked before each decision).
func (k *Kernel) When(cond func() bool, f func()) {
	k.events = append(k.events, &scripted{when: cond, f: f})
	k.signal()
}

// Spawn starts a process. It must run in scheduler context or before Run.
func (k *Kernel) Spawn(label, prog string, parent *Proc, argv []string, env map[string]string, cwd string, std [3]*FD, main func(*Proc) int) *Proc {
	p := &Proc{K: k, Label: label, Prog: prog, Pid: k.nextPid, Idx: len(k.Procs), Argv: argv, Env: map[string]string{}, Cwd: cwd,
		NumCPU: k.Cfg.NumCPU, Parent: parent, FDs: map[int]*FD{}, Std: std, Ignored: map[syscall.Signal]bool{}, nkids: map[string]int{},
		gs: map[uint64]*gstate{}, Started: k.Now(), Info: map[string]string{}}
	k.nextPid++
	p.Pgid = p.Pid
	for n, v := range env {
		p.Env[n] = v
	}
	if parent != nil {
		p.Ppid = parent.Pid
		p.Pgid = parent.Pgid
		p.NumCPU = parent.NumCPU
		p.KidFaulty = parent.KidFaulty
		p.Faulty = parent.KidFaulty
		parent.Kids = append(parent.Kids, p)
	}
	for _, fd := range std {
		if fd != nil {
			fd.refs++
		}
	}
	k.Procs = append(k.Procs, p)
	go func() {
		rt.SetCtx(unsafe.Pointer(p))
		rt.SetID(Hash64(label))
		p.Op("start", strings.Join(argv, " "), nil, nil, func(string) string { return "" })
		code := main(p)
		p.Op("exit", fmt.Sprint(code), nil, nil, func(string) string {
			k.terminate(p, code, 0)
			return ""
		})
		vanish()
	}()
	return p
}

// ChildLabel names the next child of p running prog.
func (p *Proc) ChildLabel(prog string) string {
	p.nkids[prog]++
	return fmt.Sprintf("%s.%s%d", p.Label, prog, p.nkids[prog])
}

// Exit ends the current process.
func (p *Proc) Exit(code int) {
	p.Op("exit", fmt.Sprint(code), nil, nil, func(string) string {
		p.K.terminate(p, code, 0)
		return ""
	})
	vanish()
}

func (k *Kernel) terminate(p *Proc, code int, sig syscall.Signal) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.Code = code
	p.Sig = sig
	p.Ended = k.Now()
	fds := make([]int, 0, len(p.FDs))
	for n := range p.FDs {
		fds = append(fds, n)
	}
	sort.Ints(fds)
	for _, n := range fds {
		k.closeFD(p.FDs[n], "")
	}
	p.FDs = map[int]*FD{}
	for _, fd := range p.Std {
		if fd != nil {
			k.closeFD(fd, "")
		}
	}
	if p.Exe != nil {
		p.Exe.Running--
	}
	k.Net.closeProc(p)
	out := k.pending[:0]
	for _, op := range k.pending {
		if op.P != p {
			out = append(out, op)
		}
	}
	k.pending = out
}

// Kill delivers a signal in scheduler context.
func (k *Kernel) Kill(p *Proc, sig syscall.Signal) {
	if p.Dead {
		return
	}
	p.Got = append(p.Got, sig)
	if sig != syscall.SIGKILL {
		if p.Ignored[sig] {
			k.record(p, 0, "signal", sig.String(), "", "ignored")
			return
		}
		delivered := false
		for _, r := range p.Sigs {
			if r.All || r.Set[sig] {
				delivered = true
				r.Send(sig)
			}
		}
		if delivered {
			k.record(p, 0, "signal", sig.String(), "", "handled")
			return
		}
	}
	k.record(p, 0, "signal", sig.String(), "", "terminated")
	k.terminate(p, -1, sig)
}

// Exited tells whether the process ended by returning an exit code.
func (p *Proc) Exited() bool { return p.Dead && p.Sig == 0 }

// Desc describes how a process ended.
func (p *Proc) Desc() string {
	switch {
	case !p.Dead:
		return "still running"
	case p.Sig != 0:
		return "killed by " + p.Sig.String()
	default:
		return fmt.Sprintf("exit %d", p.Code)
	}
}

// ProcByPid finds a process.
func (k *Kernel) ProcByPid(pid int) *Proc {
	for _, p := range k.Procs {
		if p.Pid == pid {
			return p
		}
	}
	return nil
}

// OpenFDs counts open descriptors.
func (p *Proc) OpenFDs() int { return len(p.FDs) }

func (k *Kernel) admit() {
	var fresh []*Op
	for _, op := range k.pending {
		if !op.admitted {
			fresh = append(fresh, op)
		}
	}
	sort.SliceStable(fresh, func(i, j int) bool {
		a, b := fresh[i], fresh[j]
		if a.P.Idx != b.P.Idx {
			return a.P.Idx < b.P.Idx
		}
		return a.Gi < b.Gi
	})
	now := time.Now()
	for _, op := range fresh {
		op.admitted = true
		if op.Kind == "exit" || op.Kind == "kill" { // no I/O is involved in these
			continue
		}
		if n := len(k.Cfg.Latencies); n > 0 {
			if c := k.Choose("lat/"+op.Key, n+1, k.Cfg.LatencyP); c > 0 {
				op.notBefore = now.Add(k.Cfg.Latencies[c-1])
			}
		}
	}
}

// Run schedules until every process has ended and no scripted event is left (or the run is declared hung).
func (k *Kernel) Run() {
	for {
		rt.Wait()
		select {
		case <-k.wake:
		default:
		}
		k.admit()
		now := time.Now()
		fired := false
		var due *scripted
		for _, e := range k.events {
			if e.when != nil && e.when() {
				due = e
				break
			}
			if e.when == nil && !e.at.After(now) && (due == nil || e.at.Before(due.at)) {
				due = e
			}
		}
		if due != nil {
			due.done = true
			due.f()
			fired = true
		}
		if fired {
			left := k.events[:0]
			for _, e := range k.events {
				if !e.done {
					left = append(left, e)
				}
			}
			k.events = left
			continue
		}
		live := 0
		for _, p := range k.Procs {
			if !p.Dead && p.Prog != "remote" {
				live++
			}
		}
		timed := 0
		for _, e := range k.events {
			if e.when == nil && !e.bg {
				timed++
			}
		}
		if live == 0 && timed == 0 || k.stopped {
			return
		}
		if k.OnStep != nil {
			k.OnStep()
			if k.stopped {
				return
			}
		}
		var cand []*Op
		var next time.Time
		for _, op := range k.pending {
			if op.notBefore.After(now) {
				if next.IsZero() || op.notBefore.Before(next) {
					next = op.notBefore
				}
				continue
			}
			if op.Ready != nil && !op.Ready() {
				continue
			}
			cand = append(cand, op)
		}
		if len(cand) == 0 {
			for _, e := range k.events {
				if e.when == nil && (next.IsZero() || e.at.Before(next)) {
					next = e.at
				}
			}
			limit := k.start.Add(k.Cfg.Horizon)
			if now.After(limit) {
				k.Outcome = "hang"
				return
			}
			if next.IsZero() || next.After(limit) {
				next = limit.Add(1)
			}
			t := time.NewTimer(next.Sub(now))
			select {
			case <-k.wake:
			case <-t.C:
			}
			t.Stop()
			continue
		}
		if k.Step >= k.Cfg.MaxSteps {
			k.Outcome = "livelock"
			return
		}
		op := k.pick(cand)
		k.exec(op)
	}
}

// Finish marks every process as ended, so that nothing of this run can act any more.
func (k *Kernel) Finish() {
	for _, p := range k.Procs {
		p.Dead = true
	}
	k.stopped = true
}

// Stop ends the run before the next decision.
func (k *Kernel) Stop() { k.stopped = true }

func (k *Kernel) pick(cand []*Op) *Op {
	sort.SliceStable(cand, func(i, j int) bool {
		a, b := cand[i], cand[j]
		al, bl := a.G == k.lastG && a.P == k.lastProc, b.G == k.lastG && b.P == k.lastProc
		if al != bl {
			return al
		}
		if a.P.Idx != b.P.Idx {
			return a.P.Idx < b.P.Idx
		}
		return a.Gi < b.Gi
	})
	if len(cand) == 1 {
		return cand[0]
	}
	if k.Cfg.Plain {
		return cand[0]
	}
	key := fmt.Sprintf("pick/%d", k.Step)
	if _, ok := k.Ch.Forced[k.Cfg.Prefix+key]; ok || k.Ch.Replay {
		return cand[k.Choose(key, len(cand), 0)]
	}
	i := 0
	switch k.Cfg.Policy {
	case "sticky":
		if k.lastProc != nil && cand[0].G == k.lastG && cand[0].P == k.lastProc {
			i = k.Choose(key, len(cand), 0.1)
		} else {
			i = k.ChooseUniform(key, len(cand))
		}
	case "prio":
		best := uint64(0)
		for j, op := range cand {
			g := fmt.Sprintf("%s/g%d", op.P.Label, op.Gi)
			if _, ok := k.prio[g]; !ok {
				k.prio[g] = mix(k.Ch.Seed^hash("prio/"+g)) | 1
			}
			if k.prio[g] > best {
				best = k.prio[g]
				i = j
			}
		}
		// change point: the goroutine that would run drops to the lowest priority
		if mix(k.Ch.Seed^hash("chg/"+key))%20 == 0 {
			g := fmt.Sprintf("%s/g%d", cand[i].P.Label, cand[i].Gi)
			k.prio[g] = k.prio[g] >> 40
			i = int(mix(k.Ch.Seed^hash(key)) % uint64(len(cand)))
		}
		if i != 0 {
			k.Ch.Choices[k.Cfg.Prefix+key] = i
		}
	case "fifo":
	default:
		i = k.ChooseUniform(key, len(cand))
	}
	return cand[i]
}

func (k *Kernel) enabled(kind string) bool {
	return k.Cfg.Faults[kind] || k.Cfg.Faults[strings.SplitN(kind, ".", 2)[0]+".*"]
}

func (k *Kernel) exec(op *Op) {
	for i, o := range k.pending {
		if o == op {
			k.pending = append(k.pending[:i], k.pending[i+1:]...)
			break
		}
	}
	k.Step++
	k.lastG, k.lastProc = op.G, op.P
	if op.Kind == "yield" {
		k.record(op.P, op.Gi, op.Kind, op.Arg, "", "")
		close(op.done)
		return
	}
	op.P.opn++
	if op.P.killAt > 0 && op.P.opn > op.P.killAt {
		k.Fired["child.killed"]++
		k.record(op.P, op.Gi, op.Kind, op.Arg, "killed", "")
		k.terminate(op.P, -1, syscall.SIGKILL)
		close(op.done)
		return
	}
	fault := ""
	p := op.P
	if p.Faulty && len(op.Kinds) > 0 && (k.FaultFilter == nil || k.FaultFilter(p, op.Kind, op.Arg)) {
		var kinds []string
		for _, f := range op.Kinds {
			if k.Cfg.Faults == nil || k.enabled(f) {
				kinds = append(kinds, f)
			}
		}
		if len(kinds) > 0 {
			k.Eligible = append(k.Eligible, EligibleOp{Key: "fault/" + op.Key, Kinds: kinds, Proc: p.Label, Kind: op.Kind, Arg: op.Arg})
			rate := k.Cfg.FaultP
			if k.Cfg.Faults == nil || k.Faults >= k.Cfg.MaxFaults {
				rate = 0
			}
			if c := k.Choose("fault/"+op.Key, len(kinds)+1, rate); c > 0 {
				fault = kinds[c-1]
				k.Faults++
				k.Fired[fault]++
			}
		}
	}
	// crash: 1 before the operation, 2 after it, 3 in the middle of it (writes)
	crash := 0
	if p.Crashable && op.Kind != "exit" && (k.CrashFilter == nil || k.CrashFilter(op)) {
		n := 3
		if op.Kind == "write" {
			n = 4
		}
		k.CrashOps = append(k.CrashOps, EligibleOp{Key: "crash/" + op.Key, Proc: p.Label, Kind: op.Kind, Arg: op.Arg})
		rate := k.Cfg.CrashP
		if k.Crashes >= k.Cfg.MaxCrashes {
			rate = 0
		}
		crash = k.Choose("crash/"+op.Key, n, rate)
		if crash > 0 {
			k.Crashes++
			k.Fired[[]string{"", "crash.before", "crash.after", "crash.torn"}[crash]]++
		}
	}
	if crash == 1 {
		k.record(p, op.Gi, op.Kind, op.Arg, "crash before", "")
		k.terminate(p, -1, syscall.SIGKILL)
		close(op.done)
		return
	}
	if crash == 3 {
		fault = "write.torn"
	}
	res := op.Exec(fault)
	k.record(p, op.Gi, op.Kind, op.Arg, fault, res)
	if crash >= 2 && !p.Dead {
		k.record(p, op.Gi, "crash", "", "crash after", "")
		k.terminate(p, -1, syscall.SIGKILL)
	}
	close(op.done)
}

// PendingOps lists the operations that wait.
func (k *Kernel) PendingOps() []*Op { return append([]*Op(nil), k.pending...) }

// Pending describes the operations that wait, for hang reports.
func (k *Kernel) Pending() []string {
	var out []string
	for _, op := range k.pending {
		out = append(out, fmt.Sprintf("%s %s %s", op.Key, op.Kind, op.Arg))
	}
	return out
}

// Signature is a hash of the interleaving: who did what in which order, with which faults.
func (k *Kernel) Signature() uint64 {
	h := fnv.New64a()
	for _, e := range k.Log {
		fmt.Fprintf(h, "%s|%d|%s|%s|%s|%s|%s\n", e.Proc, e.G, e.Kind, e.Arg, e.Fault, e.Res, e.T)
	}
	return h.Sum64()
}

// LosePower kills every process and loses what is not on the disk.
func (k *Kernel) LosePower() {
	for _, p := range k.Procs {
		if !p.Dead {
			k.Kill(p, syscall.SIGKILL)
		}
	}
	a, b := k.FS.Dirty()
	k.Fired["power.loss"]++
	k.FS.LosePower(func(key string, n int) int { return k.ChooseUniform("power/"+key, n) })
	if len(k.Procs) > 0 {
		k.record(k.Procs[0], 0, "power", fmt.Sprintf("%d changes and %d files were not on the disk", a, b), "power.loss", "")
	}
}
