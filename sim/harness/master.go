//go:build go1.25

package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/kern"
)

// Main is the simulator's command line.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim case|check|replay|run|list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "case":
		runCaseFromStdin()
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "run":
		os.Exit(runOne(os.Args[2:]))
	case "audit":
		os.Exit(audit(os.Args[2:]))
	case "list":
		var props []string
		for p := range scenarios {
			props = append(props, p)
		}
		sort.Strings(props)
		for _, p := range props {
			for _, s := range scenarios[p] {
				fmt.Println(p, s.Name, s.Weight)
			}
		}
	default:
		os.Exit(3)
	}
}

const caseTimeout = 60 * time.Second

// runCase executes a case in a fresh process.
func runCase(cs *Case) *Report {
	for attempt := 0; ; attempt++ {
		rep := runCaseOnce(cs)
		if rep.Err == "wall-clock timeout" {
			if attempt == 0 {
				continue
			}
			// a case takes milliseconds: code that computes this long without any system call never ends
			return &Report{Violations: []Violation{{cs.Prop + ".spin", fmt.Sprintf("prototool ran for %s of real time without reaching another system call", caseTimeout)}}}
		}
		return rep
	}
}

func runCaseOnce(cs *Case) *Report {
	in, _ := json.Marshal(cs)
	ctx, cancel := context.WithTimeout(context.Background(), caseTimeout)
	defer cancel()
	exe, _ := os.Executable()
	cmd := exec.CommandContext(ctx, exe, "case")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all", "GOMEMLIMIT=off")
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		return &Report{Err: "wall-clock timeout"}
	}
	rep := &Report{}
	if err != nil {
		// a panic in a goroutine other than the main one ends the whole process
		text := errb.String()
		if i := strings.Index(text, "panic: "); i >= 0 {
			first := text[i:]
			if j := strings.Index(first, "goroutine "); j >= 0 {
				k := strings.Index(first[j:], "\n\n")
				blk := first[j:]
				if k > 0 {
					blk = first[j : j+k]
				}
				if strings.Contains(blk, "uber/prototool/internal") && !strings.Contains(strings.SplitN(first, "\n", 2)[0], "verif:") {
					rep.Violations = []Violation{{cs.Prop + ".panic", clip(strings.SplitN(first, "\n", 2)[0], 300) + "\n" + trimStack([]byte(blk))}}
					return rep
				}
			}
		}
		if strings.Contains(text, "fatal error: ") && strings.Contains(text, "concurrent map") {
			rep.Violations = []Violation{{cs.Prop + ".panic", clip(text, 400)}}
			return rep
		}
		return &Report{Err: fmt.Sprintf("case process failed: %v: %s", err, clip(text, 3000))}
	}
	if err := json.Unmarshal(out.Bytes(), rep); err != nil {
		return &Report{Err: fmt.Sprintf("bad report: %v: %s %s", err, clip(out.String(), 300), clip(errb.String(), 2000))}
	}
	return rep
}

// KnownFinding is an accepted genuine defect.
type knownFinding struct{ prop, class, match string }

func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> class=<class> match="<text>" <description>
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		k := knownFinding{}
		rest := strings.TrimPrefix(l, "finding: ")
		for _, f := range strings.Fields(rest) {
			if strings.HasPrefix(f, "property=") {
				k.prop = strings.TrimPrefix(f, "property=")
			}
			if strings.HasPrefix(f, "class=") {
				k.class = strings.TrimPrefix(f, "class=")
			}
		}
		if i := strings.Index(rest, `match="`); i >= 0 {
			r := rest[i+7:]
			if j := strings.IndexByte(r, '"'); j >= 0 {
				k.match = r[:j]
			}
		}
		if k.prop != "" && k.class != "" {
			out = append(out, k)
		}
	}
	return out
}

func (k knownFinding) covers(v Violation) bool {
	return k.class == v.Class && (k.match == "" || strings.Contains(v.Msg, k.match))
}

// ReplayFile is what a violation is reported with.
type ReplayFile struct {
	Property  string         `json:"property"`
	Violation Violation      `json:"violation"`
	Scenario  string         `json:"scenario"`
	Seed      uint64         `json:"seed"`
	Tier      string         `json:"tier"`
	RTSeed    uint64         `json:"rt_seed"`
	Choices   map[string]int `json:"choices"`
	LogHash   string         `json:"log_hash"`
	Original  int            `json:"choices_before_minimisation"`
	Sample    []string       `json:"workload"`
	Trace     []string       `json:"trace"`
	How       string         `json:"how_to_replay"`
}

type stats struct {
	cases, sims, steps, eligible int
	simNS                        int64
	fired, hits                  map[string]int
	sigs                         map[uint64]bool
	perScenario                  map[string]int
	errs                         int
	samples                      []map[string]interface{}
}

func (s *stats) add(cs *Case, r *Report) {
	s.cases++
	s.sims += r.Sims
	s.steps += r.Steps
	s.eligible += r.Eligible
	s.simNS += r.SimNS
	for n, v := range r.Fired {
		s.fired[n] += v
	}
	for n, v := range r.Hits {
		s.hits[n] += v
	}
	for _, x := range r.Sigs {
		s.sigs[x] = true
	}
	s.perScenario[cs.Scenario]++
	if len(r.Sample) > 0 && s.perScenario[cs.Scenario] == 2 {
		s.samples = append(s.samples, map[string]interface{}{"scenario": cs.Scenario, "seed": cs.Seed, "case": r.Sample, "machines": r.Sims, "steps": r.Steps, "faults": r.Fired})
	}
}

func check(args []string) int {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	evidence := fl.String("evidence", "", "")
	known := fl.String("known", "", "")
	out := fl.String("replays", "", "")
	only := fl.String("scenario", "", "")
	budget := fl.Duration("budget", 0, "")
	count := fl.Int("count", 0, "")
	jobs := fl.Int("j", 0, "")
	seed0 := fl.Int64("seed", 1, "")
	noMin := fl.Bool("nomin", false, "")
	all := fl.Bool("all", false, "report every violation class, do not stop at the first")
	fl.Parse(args)
	start := time.Now()
	scs := scenarios[*prop]
	if len(scs) == 0 {
		fmt.Fprintln(os.Stderr, "no scenarios for", *prop)
		return 3
	}
	if *budget == 0 {
		*budget = 28 * time.Second
		if *tier == "thorough" {
			*budget = 10 * time.Minute
		}
	}
	n := *count
	if n == 0 {
		n = 200000
		if *tier == "thorough" {
			n = 1000000
		}
	}
	workers := *jobs
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	// the schedule of cases: scenarios by weight, round robin
	var ring []string
	for round := 0; ; round++ {
		any := false
		for _, s := range scs {
			if round < s.Weight && (*only == "" || s.Name == *only) {
				ring = append(ring, s.Name)
				any = true
			}
		}
		if !any {
			break
		}
	}
	if len(ring) == 0 {
		return 3
	}
	knowns := loadKnown(*known)
	base := uint64(*seed0) * 1000003
	mk := func(i int) *Case {
		cs := &Case{Prop: *prop, Scenario: ring[i%len(ring)], Seed: base + uint64(i/len(ring))*64 + uint64(i%len(ring)), Tier: *tier}
		cs.RTSeed = kern.Hash64(fmt.Sprint("rt", cs.Seed)) | 1
		return cs
	}
	st := &stats{fired: map[string]int{}, hits: map[string]int{}, sigs: map[uint64]bool{}, perScenario: map[string]int{}}
	var mu sync.Mutex
	next := 0
	stop := false
	type found struct {
		i   int
		cs  *Case
		rep *Report
		v   Violation
	}
	var best *found
	classes := map[string]*found{}
	classN := map[string]int{}
	knownSeen := map[string]int{}
	failure := ""
	audits, auditsWanted := 0, 12
	if *tier == "thorough" {
		auditsWanted = 200
	}
	// a case that the harness itself cannot finish is left out; many of them end the check without an answer
	noAnswer := func(why string) {
		st.errs++
		if failure == "" {
			failure = why
		}
		if st.errs > 5 && st.errs*50 > st.cases {
			stop = true
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= n || time.Since(start) > *budget {
					mu.Unlock()
					return
				}
				i := next
				next++
				doAudit := audits < auditsWanted && i%7 == 3
				if doAudit {
					audits++
				}
				mu.Unlock()
				cs := mk(i)
				rep := runCase(cs)
				if doAudit && rep.Err == "" && len(rep.Violations) == 0 {
					again := runCase(cs)
					if again.LogHash != rep.LogHash || again.Err != "" {
						mu.Lock()
						noAnswer(fmt.Sprintf("not deterministic: %s seed %d: %s", cs.Scenario, cs.Seed, again.Err))
						mu.Unlock()
						continue
					}
				}
				mu.Lock()
				if rep.Err != "" {
					noAnswer(fmt.Sprintf("case %s seed %d: %s", cs.Scenario, cs.Seed, rep.Err))
					mu.Unlock()
					continue
				}
				st.add(cs, rep)
				for _, v := range rep.Violations {
					isKnown := false
					for _, k := range knowns {
						if k.prop == *prop && k.covers(v) {
							knownSeen[k.class+" "+k.match]++
							isKnown = true
						}
					}
					if isKnown {
						continue
					}
					f := &found{i, cs, rep, v}
					v.Class += " " + shape(v.Msg)
					if classes[v.Class] == nil {
						classes[v.Class] = f
					}
					classN[v.Class]++
					if best == nil || i < best.i {
						best = f
					}
					if !*all {
						stop = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchWall := time.Since(start)
	if failure != "" && best == nil {
		if stop || st.errs*50 > st.cases {
			fmt.Fprintln(os.Stderr, "ERROR:", failure)
			return 3
		}
		fmt.Fprintf(os.Stderr, "WARNING: %d cases gave no answer, the first one: %s\n", st.errs, clip(failure, 1500))
	}
	for _, k := range sortedStr(knownSeen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times)\n", *prop, k, knownSeen[k])
	}
	code := 0
	if *all {
		var names []string
		for c := range classes {
			names = append(names, c)
		}
		sort.Strings(names)
		for _, c := range names {
			f := classes[c]
			fmt.Printf("CLASS %s x%d first: scenario %s seed %d\n  %s\n", c, classN[c], f.cs.Scenario, f.cs.Seed, clip(f.v.Msg, 1500))
			code = 1
		}
		fmt.Printf("%d cases, %d machines, %d steps, %.1fs\n", st.cases, st.sims, st.steps, searchWall.Seconds())
		for _, k := range sortedStr(st.hits) {
			fmt.Printf("  hit %s %d\n", k, st.hits[k])
		}
		for _, k := range sortedStr(st.fired) {
			fmt.Printf("  fired %s %d\n", k, st.fired[k])
		}
	} else if best != nil {
		path, err := reportViolation(*prop, best.cs, best.rep, best.v, *out, *noMin)
		if err != nil {
			fmt.Fprintln(os.Stderr, "ERROR:", err)
			return 3
		}
		fmt.Printf("violation of %s (%s): %s\n", *prop, best.v.Class, best.v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		code = 1
	}
	if *evidence != "" {
		writeEvidence(*evidence, *prop, *tier, *seed0, st, searchWall, time.Since(start), audits, code, knownSeen, workers)
	}
	if code == 0 && !*all {
		fmt.Printf("property %s held: %d cases, %d machines simulated, %d steps, %d distinct executions, %s of simulated time, %.1fs\n",
			*prop, st.cases, st.sims, st.steps, len(st.sigs), time.Duration(st.simNS).Round(time.Second), time.Since(start).Seconds())
	}
	return code
}

func sortedStr(m map[string]int) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func has(rep *Report, class string) *Violation {
	for i := range rep.Violations {
		if rep.Violations[i].Class == class {
			return &rep.Violations[i]
		}
	}
	return nil
}

// reportViolation minimises the case, writes the replay file and confirms that it reproduces in a fresh process.
func reportViolation(prop string, cs *Case, rep *Report, v Violation, dir string, noMin bool) (string, error) {
	class := v.Class
	forced := rep.Choices
	whole := false
	if forced == nil { // the process died (panic): the choices are unknown, replay the seed itself
		whole = true
	}
	test := func(f map[string]int, rts uint64) *Report {
		c := *cs
		c.Replay, c.Forced, c.RTSeed = true, f, rts
		r := runCase(&c)
		if r.Err == "" && has(r, class) != nil {
			return r
		}
		return nil
	}
	rts := cs.RTSeed
	orig := len(forced)
	if !whole {
		if r := test(forced, rts); r == nil {
			// not reproduced by the choices alone: replay the seed
			whole = true
		} else if !noMin {
			if r := test(forced, 0); r != nil {
				rts = 0
			}
			forced = minimise(forced, func(f map[string]int) bool { return test(f, rts) != nil })
			if rts != 0 {
				if r := test(forced, 0); r != nil {
					rts = 0
				}
			}
		}
	}
	fin := *cs
	fin.Replay, fin.Forced, fin.RTSeed, fin.LogOn = !whole, forced, rts, true
	if whole {
		fin.Replay, fin.Forced = false, nil
	}
	a := runCase(&fin)
	b := runCase(&fin)
	va, vb := has(a, class), has(b, class)
	if va == nil || vb == nil || a.LogHash != b.LogHash {
		return "", fmt.Errorf("violation %s of scenario %s seed %d does not replay exactly (%s %s)", class, cs.Scenario, cs.Seed, a.Err, b.Err)
	}
	rf := &ReplayFile{Property: prop, Violation: *va, Scenario: cs.Scenario, Seed: cs.Seed, Tier: cs.Tier, RTSeed: rts, Choices: forced, LogHash: fmt.Sprintf("%016x", a.LogHash), Original: orig,
		Sample: a.Sample, Trace: a.Log, How: "bash /verif/check.sh replay <this file>"}
	if whole {
		rf.Choices = nil
	}
	data, _ := json.MarshalIndent(rf, "", " ")
	if dir == "" {
		dir = "."
	}
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, cs.Scenario, cs.Seed))
	path, _ = filepath.Abs(path)
	if err := os.WriteFile(path, data, 0644); err != nil {
		return "", err
	}
	return path, nil
}

// minimise removes choices while the violation persists. Tests run in parallel batches.
func minimise(forced map[string]int, fails func(map[string]int) bool) map[string]int {
	deadline := time.Now().Add(60 * time.Second)
	budget := 400
	cur := forced
	try := func(cands []map[string]int) map[string]int {
		if time.Now().After(deadline) || budget <= 0 {
			return nil
		}
		budget -= len(cands)
		res := make([]bool, len(cands))
		var wg sync.WaitGroup
		sem := make(chan struct{}, runtime.NumCPU())
		for i := range cands {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				res[i] = fails(cands[i])
				<-sem
			}()
		}
		wg.Wait()
		for i, ok := range res {
			if ok {
				return cands[i]
			}
		}
		return nil
	}
	without := func(m map[string]int, drop func(string) bool) map[string]int {
		out := map[string]int{}
		for k, v := range m {
			if !drop(k) {
				out[k] = v
			}
		}
		return out
	}
	// whole categories first
	cat := func(k string) string {
		i := strings.IndexByte(k, '/')
		if strings.HasPrefix(k, "gen/") {
			return k[:i]
		}
		j := strings.IndexByte(k[i+1:], '/')
		if j < 0 {
			return k
		}
		return k[i+1 : i+1+j]
	}
	for {
		cats := map[string]int{}
		for k := range cur {
			cats[cat(k)]++
		}
		var cands []map[string]int
		for _, c := range sortedStr(cats) {
			m := without(cur, func(k string) bool { return cat(k) == c })
			if len(m) < len(cur) {
				cands = append(cands, m)
			}
		}
		if len(cands) == 0 {
			break
		}
		next := try(cands)
		if next == nil {
			break
		}
		cur = next
	}
	// ddmin
	chunks := 2
	for len(cur) > 0 {
		keys := sortedStr(cur)
		if chunks > len(keys) {
			chunks = len(keys)
		}
		size := (len(keys) + chunks - 1) / chunks
		var cands []map[string]int
		for i := 0; i < len(keys); i += size {
			drop := map[string]bool{}
			for j := i; j < i+size && j < len(keys); j++ {
				drop[keys[j]] = true
			}
			cands = append(cands, without(cur, func(k string) bool { return drop[k] }))
		}
		next := map[string]int(nil)
		for i := 0; i < len(cands) && next == nil; i += 16 {
			end := i + 16
			if end > len(cands) {
				end = len(cands)
			}
			next = try(cands[i:end])
		}
		if next != nil {
			cur = next
			if chunks > 2 {
				chunks--
			}
			continue
		}
		if size == 1 || time.Now().After(deadline) || budget <= 0 {
			break
		}
		chunks *= 2
	}
	return cur
}

func replay(args []string) int {
	if len(args) != 1 {
		return 3
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	cs := &Case{Prop: rf.Property, Scenario: rf.Scenario, Seed: rf.Seed, RTSeed: rf.RTSeed, Replay: rf.Choices != nil, Forced: rf.Choices, LogOn: true, Tier: rf.Tier}
	rep := runCase(cs)
	if rep.Err != "" {
		fmt.Fprintln(os.Stderr, "ERROR:", rep.Err)
		return 3
	}
	for _, l := range rep.Log {
		fmt.Println(l)
	}
	v := has(rep, rf.Violation.Class)
	if v == nil {
		fmt.Println("the violation does not occur on this tree")
		return 0
	}
	same := fmt.Sprintf("%016x", rep.LogHash) == rf.LogHash
	fmt.Printf("violation of %s (%s): %s\nidentical execution: %v\n", rf.Property, v.Class, v.Msg, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
	return 1
}

// runOne runs a single case and prints its log: run PROP SCENARIO SEED
func runOne(args []string) int {
	if len(args) < 3 {
		return 3
	}
	seed, _ := strconv.ParseUint(args[2], 10, 64)
	cs := &Case{Prop: args[0], Scenario: args[1], Seed: seed, RTSeed: kern.Hash64(fmt.Sprint("rt", seed)) | 1, LogOn: true, Tier: "quick"}
	rep := runCase(cs)
	for _, l := range rep.Log {
		fmt.Println(l)
	}
	for _, l := range rep.Sample {
		fmt.Println("sample:", l)
	}
	if rep.Err != "" {
		fmt.Println("ERROR", rep.Err)
		return 3
	}
	for _, v := range rep.Violations {
		fmt.Printf("VIOLATED %s: %s\n", v.Class, v.Msg)
	}
	fmt.Printf("machines %d steps %d simulated %s hash %016x fired %v hits %v\n", rep.Sims, rep.Steps, time.Duration(rep.SimNS), rep.LogHash, rep.Fired, rep.Hits)
	return 0
}

// audit runs cases of every property twice and compares: audit COUNT
func audit(args []string) int {
	n := 50
	if len(args) > 0 {
		n, _ = strconv.Atoi(args[0])
	}
	bad := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU()+3)
	total := 0
	for prop, scs := range scenarios {
		if len(args) > 1 && args[1] != prop {
			continue
		}
		for _, s := range scs {
			for i := 0; i < n; i++ {
				wg.Add(1)
				total++
				cs := &Case{Prop: prop, Scenario: s.Name, Seed: uint64(7770000 + i), Tier: "quick"}
				cs.RTSeed = kern.Hash64(fmt.Sprint("rt", cs.Seed)) | 1
				sem <- struct{}{}
				go func() {
					defer wg.Done()
					a := runCase(cs)
					for j := 0; j < 2; j++ {
						b := runCase(cs)
						if a.LogHash != b.LogHash || a.Err != "" || b.Err != "" || len(a.Violations) != len(b.Violations) {
							mu.Lock()
							bad++
							fmt.Printf("DIFFERENT %s %s %d: %s %s\n", cs.Prop, cs.Scenario, cs.Seed, a.Err, b.Err)
							mu.Unlock()
						}
					}
					<-sem
				}()
			}
		}
	}
	wg.Wait()
	fmt.Printf("%d cases run three times each, %d differences\n", total, bad)
	if bad > 0 {
		return 3
	}
	return 0
}

func writeEvidence(path, prop, tier string, seed int64, st *stats, search, wall time.Duration, audits, code int, known map[string]int, workers int) {
	perHour := func(n int) int { return int(float64(n) / search.Hours()) }
	if len(st.samples) > 6 {
		st.samples = st.samples[:6]
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall.Seconds(), "violations": code,
		"coverage": map[string]interface{}{
			"evaluations":         st.sims,
			"distinct_nontrivial": len(st.sigs),
			"rule": "each case is generated from one seed: a workload, a schedule, latencies and faults for one or more simulated machines; an execution is one machine run to its end. " +
				"Distinct: the hash of its whole event history (who did which operation, in which order, with which fault, result and simulated time) is new. " +
				"Every execution runs at least one complete prototool command.",
			"samples":                       st.samples,
			"cases":                         st.cases,
			"cases_per_scenario":            st.perScenario,
			"cases_without_answer":          st.errs,
			"simulated_operations":          st.steps,
			"simulated_seconds":             float64(st.simNS) / 1e9,
			"runs_per_hour":                 perHour(st.sims),
			"seeds_per_hour":                perHour(st.cases),
			"faults_injected_by_kind":       st.fired,
			"operations_eligible_for_fault": st.eligible,
			"rare_conditions_reached":       st.hits,
			"determinism_double_runs":       audits,
			"known_findings_seen":           known,
			"parallel_workers":              workers,
			"real_components": []string{"all of prototool from internal/cmd.Do down (compiled from /repo's working tree)", "gofrs/flock", "grpcurl, grpc-go, protoreflect, jsonpb", "archive/zip, yaml, zap, cobra",
				"Go runtime scheduler, channels, sync, context and time (fake clock)"},
			"stub_components": []string{"operating system (files, processes, pipes, signals, locks)", "HTTP origin and TCP network", "protoc (protoreflect's parser behind protoc's command line and messages)", "protoc plugins", "git", "diff"},
		},
		"assumptions": []string{
			"processes crash (SIGKILL) or exit; the page cache survives, so a completed write is durable",
			"interleavings are explored at system calls, timers and network events, not between arbitrary instructions",
			"stub programs honour the command-line contract of the real ones",
		},
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
}

var (
	shapeNum  = regexp.MustCompile(`[0-9]+`)
	shapePath = regexp.MustCompile(`(/[\w.N-]+)+|[a-z/]+\.proto`)
)

// shape abstracts a message, to group violations while developing.
func shape(m string) string {
	m = shapePath.ReplaceAllString(shapeNum.ReplaceAllString(m, "N"), "P")
	if len(m) > 200 {
		m = m[:50] + "…" + m[len(m)-110:]
	}
	return m
}
