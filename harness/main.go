// Command harness runs the simulation.
//
//	harness check  -prop ID -tier quick|thorough -seed N -verif DIR -work DIR
//	harness worker ...      (started by check)
//	harness replay FILE
//	harness min FILE OUT
//	harness show -prop ID -seed N -index I
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	sim "github.com/adamcolton/parlex/zzsim"
)

type siteInfo struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Kind string `json:"kind"`
}

type buildInfo struct {
	Packages       []string `json:"packages"`
	Sites          int      `json:"sites"`
	Uninstrumented []string `json:"uninstrumented"`
	Rounds         int      `json:"build_rounds"`
	SourceHash     string   `json:"source_hash"`
}

var (
	verifDir string
	sites    []siteInfo
	bi       buildInfo
	known    map[string]map[string]string // property, key: a recorded, unrepaired finding
	degraded bool                         // some file runs as written: races may be missed or misjudged
)

func siteName(i int) string {
	if i > 0 && i < len(sites) {
		s := sites[i]
		return fmt.Sprintf("%s:%d (%s)", s.File, s.Line, s.Func)
	}
	return fmt.Sprintf("site %d", i)
}

func loadBuild(work string) {
	b, err := os.ReadFile(filepath.Join(work, "b", "sites.json"))
	if err == nil {
		json.Unmarshal(b, &sites)
	}
	b, err = os.ReadFile(filepath.Join(work, "b", "build.json"))
	if err == nil {
		json.Unmarshal(b, &bi)
	}
	degraded = len(bi.Uninstrumented) > 0
}

var knownLine = regexp.MustCompile(`^KNOWN-FINDING: property=(C\d+) \[([\w-]+)\] .+`)

// loadKnown reads the recorded findings. They are data: what makes a run one
// of them is decided, exactly, by the property's own code.
func loadKnown(verif string) {
	known = map[string]map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownLine.FindStringSubmatch(l); m != nil {
			if known[m[1]] == nil {
				known[m[1]] = map[string]string{}
			}
			known[m[1]][m[2]] = l
		}
	}
}

func errExit(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		errExit("no command")
	}
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	work := fs.String("work", "/verif/.work", "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	n := fs.Int("n", 0, "")
	index := fs.Int("index", 0, "")
	wall := fs.Float64("wall", 30, "")
	prog := fs.String("progress", "", "")
	workers := fs.Int("workers", 0, "")
	cmd := os.Args[1]
	fs.Parse(os.Args[2:])
	loadBuild(*work)
	loadKnown(*verif)
	verifDir = *verif
	debug.SetMaxStack(1 << 30)
	boot()
	switch cmd {
	case "check":
		check(*prop, *tier, *seed, *verif, *work, *n, *wall, *workers)
	case "worker":
		sim.GuardMemory(3 << 30)
		worker(*prop, *seed, *from, *step, *n, *wall, *prog)
	case "replay":
		replay(fs.Arg(0))
	case "min":
		sim.GuardMemory(8 << 30)
		minimise(fs.Arg(0), fs.Arg(1))
	case "show":
		show(*prop, *seed, *index)
	case "determinism":
		determinism(*prop, *seed, *from, *n)
	default:
		errExit("unknown command %s", cmd)
	}
}

// boot initialises all packages once, as the process they are linked into
// would: their variables are only ever set by simulated processes.
func boot() {
	s := sim.New(nil)
	freshProcess()
	ts := s.Phase([]string{"init"}, []func(){func() { sim.ResetPkgs(nil) }}, 1<<40)
	if p := ts[0].Panic; p != nil {
		errExit("initialisation panics: %v", p)
	}
	if s.Deadlock != "" {
		errExit("initialisation blocks: %s", s.Deadlock)
	}
	s.Close()
}

func runSeed(seed uint64, prop string, i int) uint64 {
	return sim.Mix(seed, sim.HashStr(prop), uint64(i)) >> 1
}

// ---------------------------------------------------------------- worker

type summary struct {
	Runs, Skips, Ops  int
	Noise             int // deviations that neither the run nor its worker shows again
	Faults            map[string]int
	Fams              map[string]int
	Modes             map[string]int
	Stats             sim.Stats
	Clock             int64
	Hashes            []uint64 // distinct executions
	Samples           []*Spec
	Digests           map[int]uint64 // sampled, for the determinism check
	SoloHit, SoloMiss int
	Secs              float64
	Done              bool
	SkipWhy           map[string]int
	Known             map[string]int
	Multi             int // runs in which tasks really interleaved
	Reached           []uint8
}

type message struct {
	T     string
	Index int
	Spec  *Spec    `json:",omitempty"`
	Sum   *summary `json:",omitempty"`
}

func trivial(o *Outcome) bool { return o.Stats.Ops == 0 }

func worker(prop string, seed uint64, from, step, n int, wall float64, prog string) {
	runtime.GOMAXPROCS(2)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	var pf *os.File
	if prog != "" {
		pf, _ = os.Create(prog)
	}
	orc := NewOracle()
	r := &Run{orc}
	sim.Reached = make([]uint8, len(sites))
	s := &summary{Faults: map[string]int{}, Fams: map[string]int{}, Modes: map[string]int{}, Digests: map[int]uint64{}, SkipWhy: map[string]int{}, Known: map[string]int{}}
	seen := map[uint64]bool{}
	start := time.Now()
	viols := 0
	stop := make(chan os.Signal, 1)
	signal.Notify(stop, syscall.SIGUSR1)
	for i := from; i < n; i += step {
		if time.Since(start).Seconds() > wall || len(stop) > 0 {
			break
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%012d", i)), 0)
		}
		sp := generate(prop, runSeed(seed, prop, i), orc)
		t0 := time.Now()
		o := r.exec(sp)
		if d := time.Since(t0); d > 3*time.Second && os.Getenv("VSLOW") != "" {
			fmt.Fprintf(os.Stderr, "run %d took %v (%s, %+v)\n", i, d, sp.Fam, prof)
		}
		s.Runs++
		if o.Viol != nil {
			sp.Class, sp.Message = o.Viol.Class, o.Viol.Msg
			enc.Encode(message{T: "v", Index: i, Spec: sp})
			out.Flush()
			viols++
			if viols >= 3 {
				break
			}
			continue
		}
		if o.Skip != "" {
			s.Skips++
			s.SkipWhy[o.Skip]++
			continue
		}
		for _, k := range o.Known {
			s.Known[k]++
		}
		s.Ops += o.Stats.Ops
		for k, v := range o.Stats.Faults {
			s.Faults[k] += v
		}
		s.Fams[sp.Fam]++
		s.Modes[sp.Sched.Mode]++
		s.Stats = addStats(s.Stats, o.Stats.Sim)
		s.Clock += o.Stats.Clock
		if o.Stats.Sim.Preempts > 0 {
			s.Multi++
		}
		if !trivial(o) {
			// an execution is what was run and how it was interleaved
			h := sim.Mix(o.Stats.Hash, specHash(sp))
			if !seen[h] {
				seen[h] = true
				s.Hashes = append(s.Hashes, h)
			}
		}
		if len(s.Samples) < 1 && s.Runs > 3 {
			b, _ := json.Marshal(sp)
			if len(b) < 4000 {
				s.Samples = append(s.Samples, sp)
			}
		}
		if s.Runs%37 == 5 && len(s.Digests) < 6 {
			s.Digests[i] = o.Dig
		}
	}
	s.SoloHit, s.SoloMiss = orc.Hit, orc.Miss
	s.Secs = time.Since(start).Seconds()
	s.Done = true
	s.Reached = sim.Reached
	enc.Encode(message{T: "s", Sum: s})
	out.Flush()
}

// specHash identifies the workload without seed and schedule.
func specHash(sp *Spec) uint64 {
	c := *sp
	c.Seed, c.Sched = 0, Sched{}
	b, _ := json.Marshal(c)
	return sim.HashStr(string(b))
}

func determinism(prop string, seed uint64, from, n int) {
	// prints the digests of single runs, each with a fresh oracle
	for i := from; i < n; i++ {
		orc := NewOracle()
		sp := generate(prop, runSeed(seed, prop, i), orc)
		o := (&Run{orc}).exec(sp)
		v := ""
		if o.Viol != nil {
			v = o.Viol.Class
		}
		fmt.Printf("%s %d %016x %s%s\n", prop, i, o.Dig, o.Skip, v)
	}
}

func show(prop string, seed uint64, i int) {
	orc := NewOracle()
	sp := generate(prop, runSeed(seed, prop, i), orc)
	o := (&Run{orc}).exec(sp)
	b, _ := json.MarshalIndent(sp, "", " ")
	fmt.Println(string(b))
	if o.Viol != nil {
		fmt.Println("VIOL", o.Viol.Class, o.Viol.Msg)
	}
	fmt.Println("skip:", o.Skip, "dig:", o.Dig, "stats:", fmt.Sprintf("%+v", o.Stats))
}

// ---------------------------------------------------------------- replay

func readSpec(f string) *Spec {
	b, err := os.ReadFile(f)
	if err != nil {
		errExit("%v", err)
	}
	var sp Spec
	if err := json.Unmarshal(b, &sp); err != nil {
		errExit("%s: %v", f, err)
	}
	return &sp
}

func writeSpec(f string, sp *Spec) {
	b, _ := json.MarshalIndent(sp, "", " ")
	os.MkdirAll(filepath.Dir(f), 0755)
	if err := os.WriteFile(f, append(b, '\n'), 0644); err != nil {
		errExit("%v", err)
	}
}

// replay: exit 1 if the file's violation comes back, 0 if not.
func replay(f string) {
	sp := readSpec(f)
	orc := NewOracle()
	if sp.Class == "crash" {
		sp = generate(sp.Prop, sp.Seed, orc) // kills this process if it still does
	}
	o := (&Run{orc}).exec(sp)
	if o.Viol == nil {
		fmt.Printf("no violation (%s)\n", o.Skip)
		os.Exit(0)
	}
	fmt.Printf("%s %s: %s\n", sp.Prop, o.Viol.Class, o.Viol.Msg)
	if o.Viol.Class != sp.Class {
		os.Exit(3)
	}
	os.Exit(1)
}

func minimise(f, to string) {
	sp := readSpec(f)
	r := &Run{NewOracle()}
	o := r.exec(sp)
	if o.Viol == nil || o.Viol.Class != sp.Class {
		errExit("does not reproduce")
	}
	m := &minimiser{r: r, class: sp.Class, best: sp, out: o, until: time.Now().Add(20 * time.Second)}
	m.run()
	// judge the result with a fresh oracle, as a replay will
	o = (&Run{NewOracle()}).exec(m.best)
	if o.Viol == nil || o.Viol.Class != sp.Class {
		errExit("the minimised run does not reproduce")
	}
	m.best.Class, m.best.Message = o.Viol.Class, o.Viol.Msg
	writeSpec(to, m.best)
	fmt.Fprintf(os.Stderr, "minimised in %d runs\n", m.tries)
}

// ---------------------------------------------------------------- check

type tierCfg struct {
	runs int
	wall float64
}

func check(prop, tier string, seed uint64, verif, work string, runs int, wall float64, nw int) {
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		errExit("%v", err)
	}
	cfg := budgets[tier]
	if cfg == nil {
		errExit("unknown tier %s", tier)
	}
	n, w := cfg[prop].runs, cfg[prop].wall
	if n == 0 {
		errExit("unknown property %s", prop)
	}
	if runs > 0 {
		n, w = runs, wall
	}
	if nw <= 0 {
		nw = 8
	}
	rdir := filepath.Join(verif, "replays")
	os.MkdirAll(rdir, 0755)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	tmp, err := os.MkdirTemp(work, "run")
	if err != nil {
		errExit("%v", err)
	}
	defer os.RemoveAll(tmp)

	type result struct {
		sum   *summary
		viols []message
		crash int
		errs  string
	}
	res := make([]result, nw)
	var wg sync.WaitGroup
	var mux sync.Mutex
	var procs []*os.Process
	found := false
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			x := &res[k]
			x.crash = -1
			pf := filepath.Join(tmp, fmt.Sprint("progress", k))
			c := exec.Command(self, "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(k), "-step", fmt.Sprint(nw), "-n", fmt.Sprint(n), "-wall", fmt.Sprint(w), "-progress", pf, "-work", work, "-verif", verifDir)
			c.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB", "GOTRACEBACK=single")
			so, _ := c.StdoutPipe()
			var eb strings.Builder
			c.Stderr = &limited{b: &eb}
			if err := c.Start(); err != nil {
				x.errs = err.Error()
				return
			}
			mux.Lock()
			procs = append(procs, c.Process)
			mux.Unlock()
			killer := time.AfterFunc(time.Duration((w+60)*float64(time.Second)), func() { c.Process.Kill() })
			dec := json.NewDecoder(so)
			for {
				var m message
				if err := dec.Decode(&m); err != nil {
					break
				}
				if m.T == "v" {
					x.viols = append(x.viols, m)
					mux.Lock()
					if !found { // the others need not go on for long
						found = true
						time.AfterFunc(15*time.Second, func() {
							mux.Lock()
							defer mux.Unlock()
							for _, p := range procs {
								p.Signal(syscall.SIGUSR1)
							}
						})
					}
					mux.Unlock()
				} else if m.T == "s" {
					x.sum = m.Sum
				}
			}
			err := c.Wait()
			killer.Stop()
			if err != nil || x.sum == nil {
				x.errs = fmt.Sprintf("%v: %s", err, eb.String())
				if b, e := os.ReadFile(pf); e == nil {
					if i, e := strconv.Atoi(strings.TrimSpace(string(b))); e == nil {
						x.crash = i
					}
				}
			}
		}(k)
	}
	wg.Wait()

	total := &summary{Faults: map[string]int{}, Fams: map[string]int{}, Modes: map[string]int{}, Digests: map[int]uint64{}, SkipWhy: map[string]int{}, Known: map[string]int{}}
	seen := map[uint64]bool{}
	var viols []message
	var cpu float64
	for k := range res {
		x := &res[k]
		viols = append(viols, x.viols...)
		if x.sum == nil {
			continue
		}
		s := x.sum
		total.Runs += s.Runs
		total.Skips += s.Skips
		total.Ops += s.Ops
		total.Multi += s.Multi
		for a, b := range s.Faults {
			total.Faults[a] += b
		}
		for a, b := range s.Fams {
			total.Fams[a] += b
		}
		for a, b := range s.Modes {
			total.Modes[a] += b
		}
		for a, b := range s.SkipWhy {
			total.SkipWhy[a] += b
		}
		for a, b := range s.Known {
			total.Known[a] += b
		}
		for a, b := range s.Digests {
			total.Digests[a] = b
		}
		total.Stats = addStats(total.Stats, s.Stats)
		total.Clock += s.Clock
		total.SoloHit += s.SoloHit
		total.SoloMiss += s.SoloMiss
		total.Samples = append(total.Samples, s.Samples...)
		cpu += s.Secs
		if total.Reached == nil {
			total.Reached = make([]uint8, len(sites))
		}
		for i := range s.Reached {
			if i < len(total.Reached) {
				total.Reached[i] |= s.Reached[i]
			}
		}
		for _, h := range s.Hashes {
			seen[h] = true
		}
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })

	// a worker that died: does that run kill a fresh process again?
	for k := range res {
		if res[k].errs == "" {
			continue
		}
		if res[k].crash < 0 {
			errExit("worker failed: %s", res[k].errs)
		}
		i := res[k].crash
		ok := true
		last := ""
		for try := 0; try < 2 && ok; try++ {
			c := exec.Command(self, "determinism", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(i), "-n", fmt.Sprint(i+1), "-work", work, "-verif", verifDir)
			t := time.AfterFunc(90*time.Second, func() { c.Process.Kill() })
			b, err := c.CombinedOutput()
			t.Stop()
			last = firstLine(string(b))
			ok = err != nil && strings.Contains(string(b), "fatal error:") && !strings.Contains(string(b), "out of memory")
		}
		if !ok {
			errExit("worker failed at run %d, which does not fail alone (%s): %s", i, last, res[k].errs)
		}
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d-crash.json", prop, seed))
		writeSpec(f, &Spec{Prop: prop, Seed: runSeed(seed, prop, i), Class: "crash", Message: last})
		fmt.Printf("%s: run %d kills the process: %s\n", prop, i, last)
		report(prop, tier, seed, verif, start, cpu, total, seen, 1, "", 0, n)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		os.Exit(1)
	}

	for _, k := range sortedNames(total.Known) {
		fmt.Println(known[prop][k])
	}

	// violations: minimise, replay in a fresh process, report
	confirmed := 0
	file := ""
	for vi, v := range viols {
		if vi >= 4 || time.Since(start) > 12*time.Minute {
			break
		}
		raw := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.raw.json", prop, seed, v.Index))
		small := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", prop, seed, v.Index))
		writeSpec(raw, v.Spec)
		use := raw
		c := exec.Command(self, "min", "-work", work, "-verif", verifDir, raw, small)
		b, err := c.CombinedOutput()
		if err == nil && replays(self, work, small) {
			use = small
			os.Remove(raw)
		} else if err == nil {
			fmt.Printf("%s: the minimised run does not replay\n", prop)
		} else {
			fmt.Printf("%s: minimiser: %s\n", prop, strings.TrimSpace(string(b)))
		}
		if use == raw && !replays(self, work, raw) {
			fmt.Printf("%s: run %d (%s) does not replay: %s\n", prop, v.Index, v.Spec.Class, v.Spec.Message)
			continue
		}
		confirmed++
		file = use
		sp := readSpec(use)
		fmt.Printf("%s: run %d (seed %d): %s: %s\n", prop, v.Index, v.Spec.Seed, sp.Class, sp.Message)
		break
	}
	if confirmed > 0 {
		report(prop, tier, seed, verif, start, cpu, total, seen, len(viols), "", 0, n)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		os.Exit(1)
	}
	// what does not replay by itself is either carried over from the runs before
	// it in its worker, which is then done again, or was a disturbance of that one
	// process and not an execution of the simulator
	for _, v := range viols {
		c := exec.Command(self, "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(v.Index%nw), "-step", fmt.Sprint(nw), "-n", fmt.Sprint(v.Index+1), "-wall", fmt.Sprint(w+60), "-work", work, "-verif", verifDir)
		c.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB")
		b, err := c.Output()
		again := err != nil
		dec := json.NewDecoder(strings.NewReader(string(b)))
		for {
			var m message
			if dec.Decode(&m) != nil {
				break
			}
			again = again || m.T == "v" && m.Index == v.Index
		}
		if again {
			errExit("run %d fails after the runs before it, but not by itself: %s", v.Index, v.Spec.Message)
		}
		total.Noise++
		total.Skips++
		total.SkipWhy["not reproduced"]++
		if total.Noise >= 3 {
			errExit("%d violations were seen but none replays: %s", len(viols), viols[0].Spec.Message)
		}
	}
	// the runs must be repeatable
	checked := 0
	idx := make([]int, 0, len(total.Digests))
	for i := range total.Digests {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	for _, i := range idx {
		if checked >= 12 || checked >= 3 && time.Since(start).Seconds() > w+20 {
			break
		}
		c := exec.Command(self, "determinism", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(i), "-n", fmt.Sprint(i+1), "-work", work, "-verif", verifDir)
		b, err := c.Output()
		want := fmt.Sprintf("%016x", total.Digests[i])
		if err == nil && !strings.Contains(string(b), want) {
			c = exec.Command(self, c.Args[1:]...)
			if b, err = c.Output(); err == nil && strings.Contains(string(b), want) {
				total.Noise++
			}
		}
		if err != nil || !strings.Contains(string(b), want) {
			errExit("run %d is not repeatable: %s, first %s (%v)", i, strings.TrimSpace(string(b)), want, err)
		}
		checked++
	}
	if total.Runs-total.Skips < 20 {
		errExit("only %d of %d runs could be judged: %v", total.Runs-total.Skips, total.Runs, total.SkipWhy)
	}
	report(prop, tier, seed, verif, start, cpu, total, seen, 0, "", checked, n)
	fmt.Printf("%s: held in %d runs (%d calls, %d distinct executions, %d skipped) in %.1f s\n", prop, total.Runs-total.Skips, total.Ops, len(seen), total.Skips, time.Since(start).Seconds())
}

func sortedNames(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error:") || strings.Contains(l, "panic:") || strings.Contains(l, "runtime:") {
			return l
		}
	}
	return cut(s)
}

func replays(self, work, f string) bool {
	c := exec.Command(self, "replay", "-work", work, "-verif", verifDir, f)
	c.Run()
	return c.ProcessState != nil && c.ProcessState.ExitCode() == 1
}

type limited struct {
	b *strings.Builder
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 4000 {
		l.b.Write(p[:min(len(p), 4000)])
	}
	return len(p), nil
}

func report(prop, tier string, seed uint64, verif string, start time.Time, cpu float64, s *summary, seen map[uint64]bool, viols int, note string, det, planned int) {
	secs := time.Since(start).Seconds()
	var samples []interface{}
	for i, x := range s.Samples {
		if i >= 3 {
			break
		}
		samples = append(samples, x)
	}
	if samples == nil {
		samples = []interface{}{}
	}
	inj := map[string]int{}
	for k, v := range s.Faults {
		inj[k] = v
	}
	cov := map[string]interface{}{
		"evaluations":                  s.Runs - s.Skips,
		"distinct_nontrivial":          len(seen),
		"rule":                         "one evaluation is one simulated run generated from its seed (components, inputs, clients, faults, schedule) and judged call by call; distinct and non-trivial: it made at least one call on the code under test, and the pair (workload, sequence of context switches at instrumented accesses, map orders) differs from every other run of this check",
		"samples":                      samples,
		"planned_runs":                 planned,
		"not_reproduced":               s.Noise,
		"skipped_runs":                 s.Skips,
		"runs_meeting_known_findings":  s.Known,
		"skipped_why":                  s.SkipWhy,
		"calls_judged":                 s.Ops,
		"faults_injected":              inj,
		"context_switches":             s.Stats.Switches,
		"preemptions":                  s.Stats.Preempts,
		"runs_with_preemption":         s.Multi,
		"instrumented_steps":           s.Stats.Yields,
		"memory_accesses_checked":      s.Stats.Accesses,
		"shared_accesses":              s.Stats.SharedAccesses,
		"map_iterations":               s.Stats.MapRanges,
		"map_iterations_shuffled":      s.Stats.MapShuffled,
		"lock_and_atomic_operations":   s.Stats.SyncOps,
		"goroutines_of_the_library":    s.Stats.GoStmts,
		"stalls":                       s.Stats.Stalls,
		"slow_task_delays":             s.Stats.SlowSkips,
		"simulated_time_ns":            s.Clock,
		"simulated_steps":              s.Stats.Yields,
		"simulated_time_note":          "the library reads no clock; in runs with runtime randomness each step takes a time drawn per run (0 to 20 ms) and timers fire when due; injected delays advance it too",
		"runs_per_hour":                int(float64(s.Runs) / (secs + 0.001) * 3600),
		"seeds_per_hour":               int(float64(s.Runs) / (secs + 0.001) * 3600),
		"schedules_by_policy":          s.Modes,
		"workload_families":            s.Fams,
		"solo_oracle_runs":             s.SoloMiss,
		"solo_oracle_cache_hits":       s.SoloHit,
		"runs_repeated_in_new_process": det,
		"real_components":              bi.Packages,
		"stub_components":              stubs[prop],
		"not_instrumented":             append([]string{}, bi.Uninstrumented...),
		"instrumented_sites":           bi.Sites,
		"source_hash":                  bi.SourceHash,
	}
	reached, switched := 0, 0
	fn := map[string]bool{}
	for i := 1; i < len(sites); i++ {
		var x uint8
		if i < len(s.Reached) {
			x = s.Reached[i]
		}
		k := sites[i].File + " " + sites[i].Func
		fn[k] = fn[k] || x != 0
		if x&1 != 0 {
			reached++
		}
		if x&2 != 0 {
			switched++
		}
	}
	var got int
	var missed []string
	for k, ok := range fn {
		if ok {
			got++
		} else {
			missed = append(missed, k)
		}
	}
	sort.Strings(missed)
	cov["sites_reached"] = reached
	cov["sites_with_a_context_switch"] = switched
	cov["functions_reached"] = got
	cov["functions_not_reached"] = append([]string{}, missed...)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": secs, "violations": viols,
		"assumptions": []string{
			"sequentially consistent execution at the instrumented accesses, with data races reported separately by happens-before",
			"the Go standard library and runtime are trusted; package regexp is used as is",
			"a call's result on freshly built components in a fresh process, alone and with the canonical map order, is the reference for that call",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		errExit("%v", err)
	}
}

var stubs = map[string][]string{
	"C08": {"scripted lexer, parser and reducers in three quarters of the runs; the library's own, wrapped, in the others"},
	"C12": {"standard input, output and error of the process", "command-line framework github.com/urfave/cli (real code, uninstrumented)"},
	"C09": {"client callbacks: reductions, conditions, grammars, productions, symbols, lexemes, trees, stage wrappers"},
	"C10": {"client callbacks: reductions, conditions, grammars, productions, symbols, lexemes, trees, stage wrappers"},
}

var budgets = map[string]map[string]tierCfg{
	"quick": {
		"C01": {64000, 160}, "C02": {36000, 160}, "C03": {30000, 160}, "C04": {23000, 160}, "C05": {60000, 160}, "C06": {120000, 160},
		"C07": {45000, 160}, "C08": {70000, 160}, "C09": {64000, 160}, "C10": {60000, 160}, "C11": {86000, 160}, "C12": {60000, 160},
	},
	"thorough": {
		"C01": {400000, 600}, "C02": {400000, 600}, "C03": {400000, 600}, "C04": {400000, 600}, "C05": {400000, 600}, "C06": {400000, 600},
		"C07": {400000, 600}, "C08": {2000000, 400}, "C09": {400000, 600}, "C10": {400000, 600}, "C11": {400000, 600}, "C12": {400000, 400},
	},
}
