// driver runs one check: it rewrites and builds the current tree of the code under test, runs
// the simulator's workers, verifies determinism and replay, and writes the evidence file.
//
//	driver check PROPERTY quick|thorough
//	driver replay FILE
//
// Exit status: 0 the property held on everything explored, 1 a violation, 2 no answer.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type tier struct {
	programs int     // over all groups
	secs     float64 // wall clock cap of the exploration
	minimise float64
}

var tiers = map[string]tier{
	"quick":    {programs: 60000, secs: 32, minimise: 20},
	"thorough": {programs: 6000000, secs: 600, minimise: 120},
}

// Programs are split over groups by number, so that which run is executed by which build does
// not depend on the machine.
const groups = 8

var hugeProfiles = map[string]bool{"C02": true, "C06": true, "C10": true, "C17": true}

func raceGroups(prop string) int {
	if prop == "C04" {
		return 8
	}
	return 4
}

type summary struct {
	Build       string            `json:"build"`
	Runs        int64             `json:"runs"`
	Programs    int64             `json:"programs"`
	Nontrivial  int64             `json:"nontrivial"`
	Calls       int64             `json:"calls"`
	Points      int64             `json:"points"`
	SyncOps     int64             `json:"sync_ops"`
	Switches    int64             `json:"switches"`
	Preempts    int64             `json:"preempts"`
	StmtPre     int64             `json:"stmt_preempts"`
	Tasks       int64             `json:"tasks"`
	Blocks      int64             `json:"blocks"`
	SimNs       int64             `json:"sim_ns"`
	EnvDraws    int64             `json:"env_draws"`
	MapShuffles int64             `json:"map_shuffles"`
	PoolDrops   int64             `json:"pool_drops"`
	Overlaps    int64             `json:"overlaps"`
	Late        int64             `json:"late_reads"`
	Scribbles   int64             `json:"scribbles"`
	Refused     int64             `json:"refused"`
	LinUnknown  int64             `json:"lin_unknown"`
	LinNodes    int64             `json:"lin_nodes"`
	Starved     int64             `json:"starve_runs"`
	Faults      map[string]int64  `json:"faults"`
	Policies    map[string]int64  `json:"policies"`
	Cover       map[string]int64  `json:"cover"`
	Hashes      map[string]string `json:"hashes"`
	Sample      []string          `json:"sample"`
	Violation   string            `json:"violation"`
	WallS       float64           `json:"wall_s"`
	HarnessErr  string            `json:"harness_err"`
}

type replayFile struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Run      int64    `json:"run"`
	Build    string   `json:"build"`
	Calls    int      `json:"calls"`
	Preempt  int      `json:"preemptions"`
	From     int      `json:"calls_before_minimising"`
	History  []string `json:"history"`
}

var (
	verif   string // directory of the framework
	scratch string
	started = time.Now()
)

// noAnswer ends the check without a verdict.
func noAnswer(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "NO ANSWER: "+f+"\n", a...)
	exit(2)
}

func exit(code int) {
	if scratch != "" && os.Getenv("VSIM_KEEP") == "" {
		os.RemoveAll(scratch)
	}
	os.Exit(code)
}

func logf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "[%6.1fs] "+f+"\n", append([]any{time.Since(started).Seconds()}, a...)...)
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "CGO_ENABLED", "GORACE", "GOMAXPROCS", "GODEBUG", "GOGC", "GOMEMLIMIT", "GOWORK", "GOEXPERIMENT", "GOSUMDB":
			continue
		}
		env = append(env, e)
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return append(env, "GOFLAGS=-buildvcs=false", "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=1", "GOWORK=off", "GOSUMDB=off")
}

// raceEnv: the packages of the simulator are compiled without instrumentation, and for such
// packages the compiler of Go 1.26 and later calls size-specialised allocators, which do not
// tell the race detector about the new object: it then still knows the accesses to the
// memory's previous owner, and reports races with them.
func raceEnv() []string {
	if v := runtime.Version(); !strings.HasPrefix(v, "go1.26") && !strings.HasPrefix(v, "go1.27") {
		return nil
	}
	return []string{"GOEXPERIMENT=nosizespecializedmalloc"}
}

func run(name string, args ...string) error { return runEnv(nil, name, args...) }

func runEnv(env []string, name string, args ...string) error {
	c := exec.Command(name, args...)
	c.Dir = filepath.Join(verif, "sim")
	c.Env = append(goEnv(), env...)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	if err := c.Run(); err != nil {
		return fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, out.Bytes())
	}
	return nil
}

// buildTree rewrites the tree under test and builds the simulator with it.
func buildTree(race, plain bool) {
	gen := filepath.Join(scratch, "gen")
	args := []string{"run", "./cmd/simgen", "-out", gen, "-mod", filepath.Join(verif, "sim")}
	if d := os.Getenv("VSIM_REPO"); d != "" { // development only: try a changed copy of the tree
		args = append(args, "-repo", d)
	}
	if err := run("go", args...); err != nil {
		noAnswer("rewriting the source failed: %v", err)
	}
	var wg sync.WaitGroup
	errs := make([]error, 2)
	build := func(env []string, more ...string) error {
		return runEnv(env, "go", append([]string{"build", "-modfile=" + filepath.Join(gen, "go.mod"), "-overlay", filepath.Join(gen, "overlay.json")}, more...)...)
	}
	if plain {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[0] = build(nil, "-o", bin("plain"), "./cmd/vsim")
		}()
	}
	if race {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[1] = build(raceEnv(), "-race", "-gcflags=vsim/simrt/...=-race=false -l", "-gcflags=vsim/harness=-race=false -l", "-o", bin("race"), "./cmd/vsim")
		}()
	}
	wg.Wait()
	if err := errors.Join(errs...); err != nil {
		noAnswer("building the simulator failed: %v", err)
	}
}

func bin(build string) string { return filepath.Join(scratch, build) }

func vsim(build string, stdin string, logName string, args ...string) *exec.Cmd {
	c := exec.Command(bin(build), args...)
	c.Env = append(goEnv(), "GORACE=log_path="+filepath.Join(scratch, logName)+" exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2")
	if stdin != "" {
		c.Stdin = strings.NewReader(stdin)
	}
	return c
}

func main() {
	var err error
	verif = os.Getenv("VSIM_HOME")
	if verif == "" || len(os.Args) < 3 {
		noAnswer("usage: see check.sh")
	}
	os.MkdirAll(filepath.Join(verif, "build"), 0o755)
	scratch, err = os.MkdirTemp(filepath.Join(verif, "build"), "run-")
	if err != nil {
		noAnswer("%v", err)
	}
	switch os.Args[1] {
	case "check":
		t := "quick"
		if len(os.Args) > 3 {
			t = os.Args[3]
		}
		check(os.Args[2], t)
	case "replay":
		replay(os.Args[2])
	}
	noAnswer("usage: see check.sh")
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		noAnswer("%v", err)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		noAnswer("%v", err)
	}
	abs, _ := filepath.Abs(path)
	buildTree(r.Build == "race", r.Build != "race")
	c := vsim(r.Build, "", "rl-replay", "replay", abs)
	c.Stdout, c.Stderr = os.Stdout, os.Stderr
	err = c.Run()
	if err == nil {
		exit(0)
	}
	if c.ProcessState.ExitCode() == 1 {
		exit(1)
	}
	if r.Class == "crash" && crashed(c) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		exit(1)
	}
	noAnswer("replay ended with %v", err)
}

// crashed says that the Go runtime ended the process (fatal error), not the simulator.
func crashed(c *exec.Cmd) bool {
	code := c.ProcessState.ExitCode()
	return code == 2 || code == -1
}

type worker struct {
	group  int
	build  string
	out    string
	cmd    *exec.Cmd
	stderr bytes.Buffer
	err    error
	sum    summary
	have   bool
}

func check(prop, tierName string) {
	t, ok := tiers[tierName]
	if !ok {
		noAnswer("unknown tier %q", tierName)
	}
	seed := uint64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		n, err := strconv.ParseUint(v, 10, 64)
		if err != nil {
			noAnswer("VERIF_SEED: %v", err)
		}
		seed = n
	}
	if v := os.Getenv("VSIM_SECS"); v != "" {
		t.secs, _ = strconv.ParseFloat(v, 64)
	}
	logf("%s %s, seed %d", prop, tierName, seed)
	evidence := filepath.Join(verif, "evidence", prop+".json")
	if d := os.Getenv("VSIM_REPO"); d != "" {
		evidence = filepath.Join(scratch, "evidence.json")
	}
	os.MkdirAll(filepath.Dir(evidence), 0o755)
	os.Remove(evidence)
	buildTree(true, true)
	logf("built")

	// Explore.
	stop := filepath.Join(scratch, "stop")
	procs := runtime.NumCPU()
	if v, _ := strconv.Atoi(os.Getenv("VSIM_PROCS")); v > 0 {
		procs = v
	}
	if procs > groups {
		procs = groups
	}
	rounds := (groups + procs - 1) / procs
	var ws []*worker
	sem := make(chan struct{}, procs)
	var wg sync.WaitGroup
	exploreStart := time.Now()
	for g := 0; g < groups; g++ {
		w := &worker{group: g, build: "plain", out: filepath.Join(scratch, fmt.Sprintf("w%d", g))}
		if g < raceGroups(prop) {
			w.build = "race"
		}
		ws = append(ws, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if _, err := os.Stat(stop); err == nil {
				return
			}
			w.cmd = vsim(w.build, "", fmt.Sprintf("rl%d", w.group), "worker", "-profile", prop, "-seed", fmt.Sprint(seed),
				"-from", fmt.Sprint(w.group), "-stride", fmt.Sprint(groups), "-count", fmt.Sprint(t.programs/groups),
				"-secs", fmt.Sprint(t.secs/float64(rounds)), "-min", fmt.Sprint(t.minimise), "-out", w.out, "-stop", stop)
			w.cmd.Stderr = &w.stderr
			w.err = w.cmd.Run()
			if b, err := os.ReadFile(w.out + ".summary.json"); err == nil {
				w.have = json.Unmarshal(b, &w.sum) == nil
			}
			if w.err != nil {
				os.WriteFile(stop, nil, 0o644)
			}
		}()
	}
	// One run with a very large index beside them; on code that is too slow for that, none.
	large := &worker{group: groups, build: "plain", out: filepath.Join(scratch, "wlarge")}
	largeNote := "not part of this property's workload"
	if hugeProfiles[prop] {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(t.secs+8)*time.Second)
			defer cancel()
			c := vsim("plain", "", "rllarge", "worker", "-huge", "-profile", prop, "-seed", fmt.Sprint(seed), "-count", "1", "-from", "1000000000",
				"-secs", fmt.Sprint(t.secs), "-min", "1", "-out", large.out, "-stop", stop)
			c.Stderr = &large.stderr
			if err := c.Start(); err != nil {
				return
			}
			done := make(chan error, 1)
			go func() { done <- c.Wait() }()
			select {
			case large.err = <-done:
				large.cmd = c
				if b, err := os.ReadFile(large.out + ".summary.json"); err == nil {
					large.have = json.Unmarshal(b, &large.sum) == nil
				}
				largeNote = "one run with an index of more than 65536 documents"
			case <-ctx.Done():
				c.Process.Kill()
				<-done
				largeNote = "the run with a very large index took too long and was given up"
			}
		}()
	}
	wg.Wait()
	if large.cmd != nil && large.have {
		ws = append(ws, large)
	}
	exploreWall := time.Since(exploreStart).Seconds()

	// Merge.
	tot := summary{Faults: map[string]int64{}, Policies: map[string]int64{}, Cover: map[string]int64{}, Hashes: map[string]string{}}
	distinct := map[uint64]struct{}{}
	var viols []*replayFile
	var paths []string
	var trouble []string
	var busy float64
	byBuild := map[string]int64{}
	for _, w := range ws {
		if w.cmd == nil {
			continue
		}
		if !w.have {
			if w.cmd.ProcessState != nil && crashed(w.cmd) {
				if r, p := confirmCrash(prop, seed, w); r != nil {
					viols, paths = append(viols, r), append(paths, p)
					continue
				}
			}
			trouble = append(trouble, fmt.Sprintf("worker %d (%s) ended with %v and no summary: %s", w.group, w.build, w.err, tail(w.stderr.String(), 4000)))
			continue
		}
		s := &w.sum
		if s.HarnessErr != "" {
			trouble = append(trouble, fmt.Sprintf("worker %d: %s", w.group, s.HarnessErr))
		}
		byBuild[w.build] += s.Runs
		tot.Runs += s.Runs
		tot.Programs += s.Programs
		tot.Nontrivial += s.Nontrivial
		tot.Calls += s.Calls
		tot.Points += s.Points
		tot.SyncOps += s.SyncOps
		tot.Switches += s.Switches
		tot.Preempts += s.Preempts
		tot.StmtPre += s.StmtPre
		tot.Tasks += s.Tasks
		tot.Blocks += s.Blocks
		tot.SimNs += s.SimNs
		tot.EnvDraws += s.EnvDraws
		tot.MapShuffles += s.MapShuffles
		tot.PoolDrops += s.PoolDrops
		tot.Overlaps += s.Overlaps
		tot.Late += s.Late
		tot.Scribbles += s.Scribbles
		tot.Refused += s.Refused
		tot.LinUnknown += s.LinUnknown
		tot.LinNodes += s.LinNodes
		tot.Starved += s.Starved
		busy += s.WallS
		for k, v := range s.Faults {
			tot.Faults[k] += v
		}
		for k, v := range s.Policies {
			tot.Policies[k] += v
		}
		for k, v := range s.Cover {
			tot.Cover[k] += v
		}
		for k, v := range s.Hashes {
			tot.Hashes[k] = v
		}
		if len(tot.Sample) == 0 {
			tot.Sample = s.Sample
		}
		if b, err := os.ReadFile(w.out + ".distinct"); err == nil {
			for i := 0; i+8 <= len(b); i += 8 {
				distinct[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
			}
		}
		if s.Violation != "" {
			b, err := os.ReadFile(s.Violation)
			r := new(replayFile)
			if err == nil {
				err = json.Unmarshal(b, r)
			}
			if err != nil {
				trouble = append(trouble, fmt.Sprintf("worker %d: %v", w.group, err))
				continue
			}
			viols, paths = append(viols, r), append(paths, s.Violation)
		}
	}
	logf("%d runs in %.1f s", tot.Runs, exploreWall)

	// Report the violation with the lowest run number whose replay in a fresh process agrees.
	code := 0
	if len(viols) > 0 {
		order := make([]int, len(viols))
		for i := range order {
			order[i] = i
		}
		sort.Slice(order, func(a, b int) bool { return viols[order[a]].Run < viols[order[b]].Run })
		reported := false
		for _, i := range order {
			r, p := viols[i], paths[i]
			if r.Class != "crash" && !replays(r, p) {
				trouble = append(trouble, fmt.Sprintf("run %d violates the property (%s: %s) but its replay file does not reproduce that in a fresh process", r.Run, r.Class, r.Message))
				continue
			}
			dst := filepath.Join(verif, "out", fmt.Sprintf("%s-seed%d-run%d.replay.json", prop, seed, r.Run))
			os.MkdirAll(filepath.Dir(dst), 0o755)
			b, _ := os.ReadFile(p)
			if err := os.WriteFile(dst, b, 0o644); err != nil {
				noAnswer("%v", err)
			}
			fmt.Printf("%s: %s (seed %d, run %d; %d calls, minimised from %d, with %d forced context switches)\n", prop, r.Class, seed, r.Run, r.Calls, r.From, r.Preempt)
			fmt.Println(indent(tail2(r.Message, 6000)))
			fmt.Println("history:")
			fmt.Println(indent(strings.Join(r.History, "\n")))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, dst)
			reported, code = true, 1
			break
		}
		if !reported {
			for _, s := range trouble {
				fmt.Fprintln(os.Stderr, s)
			}
			noAnswer("no violation could be replayed")
		}
	}
	det := 0
	if code == 0 {
		if len(trouble) > 0 {
			noAnswer("%s", strings.Join(trouble, "\n"))
		}
		if tot.Runs == 0 {
			noAnswer("nothing was run")
		}
		det = determinism(prop, seed, tot.Hashes)
		logf("determinism: %d runs re-executed in fresh processes of both builds", det)
	}

	// Evidence.
	hit, all := 0, 0
	var missed []string
	for k, v := range tot.Cover {
		all++
		if v > 0 {
			hit++
		} else {
			missed = append(missed, k)
		}
	}
	sort.Strings(missed)
	if len(missed) > 60 {
		missed = append(missed[:60], "...")
	}
	samples := []any{}
	if len(tot.Sample) > 0 {
		samples = append(samples, tot.Sample)
	}
	for i, r := range viols {
		if i < 2 {
			samples = append(samples, map[string]any{"violation": r.Class, "run": r.Run, "message": r.Message, "history": r.History})
		}
	}
	cov := map[string]any{
		"evaluations":         tot.Runs,
		"distinct_nontrivial": len(distinct),
		"rule": "One evaluation is one simulated run: a program (sizes, names, documents, call mix, analyzers, enabled faults) and a schedule, both derived from VERIF_SEED and the run number; " +
			"3 schedules per program. A run is non-trivial when at least two calls of different clients overlapped in it; two runs are the same when their client programs and their sequences of (task, scheduling operation) are the same, by a 64-bit hash.",
		"samples":                          samples,
		"runs_nontrivial":                  tot.Nontrivial,
		"programs":                         tot.Programs,
		"runs_per_hour":                    int64(float64(tot.Runs) / exploreWall * 3600),
		"program_seeds_per_hour":           int64(float64(tot.Programs) / exploreWall * 3600),
		"exploration_wall_s":               round(exploreWall),
		"runs_by_build":                    byBuild,
		"simulated_seconds":                round(float64(tot.SimNs) / 1e9),
		"calls":                            tot.Calls,
		"overlapping_call_pairs":           tot.Overlaps,
		"refused_calls":                    tot.Refused,
		"tasks_started":                    tot.Tasks,
		"scheduling_points":                tot.Points,
		"sync_operations":                  tot.SyncOps,
		"context_switches":                 tot.Switches,
		"preemptions_at_sync_operations":   tot.Preempts,
		"preemptions_between_statements":   tot.StmtPre,
		"times_a_task_blocked":             tot.Blocks,
		"schedule_policies":                tot.Policies,
		"faults_injected":                  tot.Faults,
		"random_choices_served_to_code":    tot.EnvDraws,
		"map_iterations_shuffled":          tot.MapShuffles,
		"pool_items_dropped":               tot.PoolDrops,
		"streams_read_late":                tot.Late,
		"results_overwritten_by_callers":   tot.Scribbles,
		"histories_undecided_by_the_limit": tot.LinUnknown,
		"linearizability_search_nodes":     tot.LinNodes,
		"runs_re_executed_and_identical":   det,
		"very_large_index":                 largeNote,
		"statement_blocks_reached":         hit,
		"statement_blocks_instrumented":    all,
		"statement_blocks_never_reached":   missed,
		"real_code":                        []string{"all of package github.com/sonirico/visigoth, rewritten at build time so that its scheduling goes through the simulator", "github.com/sonirico/vago streams and slices it uses, rewritten likewise", "snowball stemmer, easyjson, Go standard library"},
		"simulated_or_stubbed":             []string{"goroutine scheduler, sync, sync/atomic, channels, select, time, math/rand, context, iteration order of maps", "callers (client tasks)", "tokenizer, filters, engines, index and builder are the real ones, wrapped in fault points that stall or panic"},
	}
	ev := map[string]any{
		"property": prop, "tier": tierName, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"Interleavings are explored at synchronisation operations and between statements under sequential consistency; weaker memory effects are covered only by the race detector, which has to stay silent.",
			"Seeded sampling: a clean batch is evidence, not proof.",
			"The rewriter, the simulator, the reference model and the Go race detector are trusted.",
		},
		"wall_s": round(time.Since(started).Seconds()), "violations": len(viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
		noAnswer("%v", err)
	}
	if code == 0 {
		fmt.Printf("%s held on %d simulated runs (%d distinct non-trivial) with seed %d\n", prop, tot.Runs, len(distinct), seed)
	}
	exit(code)
}

func round(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func tail2(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func indent(s string) string {
	return "    " + strings.ReplaceAll(strings.TrimRight(s, "\n"), "\n", "\n    ")
}

// replays re-executes the replay file in a fresh process and compares the violation.
func replays(r *replayFile, path string) bool {
	for i := 0; i < 3; i++ {
		c := vsim(r.Build, "", fmt.Sprintf("rl-replay%d", i), "replay", path)
		out, _ := c.Output()
		if c.ProcessState != nil && c.ProcessState.ExitCode() == 1 && strings.Contains(string(out), "class: "+r.Class+"\n") {
			return true
		}
		if r.Class != "race" { // only the race detector may overlook something
			return false
		}
	}
	return false
}

// confirmCrash re-executes the run in which a worker's process died.
func confirmCrash(prop string, seed uint64, w *worker) (*replayFile, string) {
	b, err := os.ReadFile(w.out + ".progress")
	if err != nil {
		return nil, ""
	}
	n, err := strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64)
	if err != nil {
		return nil, ""
	}
	path := w.out + ".replay.json"
	if err := vsim(w.build, "", "rl-dump", "dump", prop, fmt.Sprint(seed), fmt.Sprint(n), path).Run(); err != nil {
		return nil, ""
	}
	c := vsim(w.build, "", "rl-crash", "replay", path)
	var stderr bytes.Buffer
	c.Stderr = &stderr
	if c.Run() == nil || !crashed(c) || !strings.Contains(stderr.String(), "sonirico/visigoth") {
		return nil, ""
	}
	r := new(replayFile)
	b, _ = os.ReadFile(path)
	var m map[string]any
	json.Unmarshal(b, &m)
	m["message"] = "the Go runtime ended the process:\n" + tail(stderr.String(), 6000)
	b, _ = json.MarshalIndent(m, "", " ")
	os.WriteFile(path, b, 0o644)
	json.Unmarshal(b, r)
	return r, path
}

// determinism re-executes a sample of the runs in fresh processes of both builds, in another
// order and with another GOMAXPROCS, and compares the hashes of everything observed.
func determinism(prop string, seed uint64, hashes map[string]string) int {
	var in strings.Builder
	n := 0
	for k := range hashes {
		fmt.Fprintln(&in, k)
		n++
	}
	type res struct {
		out []byte
		err error
	}
	ch := make(chan res, 2)
	for _, b := range []string{"plain", "race"} {
		go func() {
			c := vsim(b, in.String(), "rl-hash-"+b, "hashes", prop, fmt.Sprint(seed))
			if b == "plain" {
				c.Env = append(c.Env, "GOMAXPROCS=1")
			} else {
				c.Env = append(c.Env, "GOMAXPROCS=5")
			}
			out, err := c.Output()
			ch <- res{out, err}
		}()
	}
	for i := 0; i < 2; i++ {
		r := <-ch
		if r.err != nil {
			noAnswer("re-executing runs: %v", r.err)
		}
		got := 0
		for _, l := range strings.Split(strings.TrimSpace(string(r.out)), "\n") {
			f := strings.Fields(l)
			if len(f) < 2 {
				continue
			}
			got++
			if hashes[f[0]] != f[1] {
				noAnswer("run %s is not deterministic: %s, then %s", f[0], hashes[f[0]], f[1])
			}
		}
		if got != n {
			noAnswer("re-executing runs: %d of %d", got, n)
		}
	}
	return 2 * n
}
