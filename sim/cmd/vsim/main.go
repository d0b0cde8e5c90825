// vsim executes simulated runs of the code under test.
//
//	vsim worker ...   explores programs and schedules by seed
//	vsim replay FILE  re-executes a replay file
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"vsim/harness"
	"vsim/simrt"
)

// Replay is the replay file.
type Replay struct {
	Property  string           `json:"property"`
	Class     string           `json:"class"`
	Message   string           `json:"message"`
	VerifSeed uint64           `json:"verif_seed"`
	Run       int64            `json:"run"`
	Build     string           `json:"build"` // race or plain
	Mode      string           `json:"mode"`  // schedule: explicit preemptions; seed: from the seeds
	Config    simrt.Config     `json:"config"`
	Program   *harness.Program `json:"program"`
	Tries     int              `json:"minimiser_runs"`
	FromCalls int              `json:"calls_before_minimising"`
	Calls     int              `json:"calls"`
	Preempt   int              `json:"preemptions"`
	History   []string         `json:"history"`
	Events    []simrt.Event    `json:"events,omitempty"`
}

// Summary of a worker.
type Summary struct {
	Build       string            `json:"build"`
	Runs        int64             `json:"runs"`
	Programs    int64             `json:"programs"`
	Nontrivial  int64             `json:"nontrivial"`
	Calls       int64             `json:"calls"`
	Points      int64             `json:"points"`
	SyncOps     int64             `json:"sync_ops"`
	Switches    int64             `json:"switches"`
	Preempts    int64             `json:"preempts"`
	StmtPre     int64             `json:"stmt_preempts"`
	Tasks       int64             `json:"tasks"`
	Blocks      int64             `json:"blocks"`
	SimNs       int64             `json:"sim_ns"`
	EnvDraws    int64             `json:"env_draws"`
	MapShuffles int64             `json:"map_shuffles"`
	PoolDrops   int64             `json:"pool_drops"`
	Overlaps    int64             `json:"overlaps"`
	Late        int64             `json:"late_reads"`
	Scribbles   int64             `json:"scribbles"`
	Refused     int64             `json:"refused"`
	LinUnknown  int64             `json:"lin_unknown"`
	LinNodes    int64             `json:"lin_nodes"`
	Starved     int64             `json:"starve_runs"`
	Faults      map[string]int64  `json:"faults"`
	Policies    map[string]int64  `json:"policies"`
	Cover       map[string]int64  `json:"cover"`
	Hashes      map[string]string `json:"hashes"` // run -> hash, a sample
	Sample      []string          `json:"sample"`
	Violation   string            `json:"violation"` // path of the replay file
	WallS       float64           `json:"wall_s"`
	HarnessErr  string            `json:"harness_err"`
}

func build() string {
	if simrt.RaceEnabled {
		return "race"
	}
	return "plain"
}

var runStart atomic.Int64

func watchdog(limit time.Duration) {
	for {
		time.Sleep(time.Second)
		if s := runStart.Load(); s != 0 && time.Since(time.Unix(0, s)) > limit {
			fmt.Fprintln(os.Stderr, "vsim: a single run takes longer than", limit)
			buf := make([]byte, 1<<20)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(4)
		}
	}
}

func runOne(p *harness.Program, cfg simrt.Config) *harness.Outcome {
	runStart.Store(time.Now().UnixNano())
	o := harness.RunOne(p, cfg)
	runStart.Store(0)
	return o
}

const schedulesPerProgram = 3

func caseFor(profile string, seed uint64, run int64) (*harness.Program, simrt.Config) {
	base := harness.Mix(seed, harness.HashString(profile))
	p := harness.Profiles[profile].Gen(harness.Mix(base, uint64(run/schedulesPerProgram)))
	return p, harness.ConfigFor(p, harness.Mix(base+1, uint64(run)))
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	debug.SetMaxStack(128 << 20)
	for _, e := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(e, "log_path=") {
			harness.Races.Path = e[9:]
		}
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2])
	case "hashes":
		hashes(os.Args[2:])
	case "dump":
		dump(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	profile := fs.String("profile", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int64("from", 0, "first program")
	stride := fs.Int64("stride", 1, "")
	count := fs.Int64("count", 1000, "programs")
	secs := fs.Float64("secs", 30, "wall clock limit")
	out := fs.String("out", "", "prefix of the output files")
	stopFile := fs.String("stop", "", "")
	large := fs.Bool("huge", false, "one run with a very large index")
	minSecs := fs.Float64("min", 25, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(2)
	go watchdog(60 * time.Second)
	s := &Summary{Build: build(), Faults: map[string]int64{}, Policies: map[string]int64{}, Cover: map[string]int64{}, Hashes: map[string]string{}}
	start := time.Now()
	distinct := map[uint64]struct{}{}
	prog, _ := os.Create(*out + ".progress")
	var viol *harness.Found
	var violRun int64
loop:
	for k := int64(0); k < *count; k++ {
		num := *from + k**stride
		s.Programs++
		for j := int64(0); j < schedulesPerProgram; j++ {
			if time.Since(start).Seconds() > *secs {
				break loop
			}
			run := num*schedulesPerProgram + j
			prog.WriteAt([]byte(fmt.Sprintf("%-20d", run)), 0)
			p, cfg := caseFor(*profile, *seed, run)
			if *large {
				p = harness.HugeProgram(*profile, *seed)
				cfg.StmtP = 0
			}
			o := runOne(p, cfg)
			s.Runs++
			if o.HarnessErr != "" {
				s.HarnessErr = fmt.Sprintf("run %d: %s", run, o.HarnessErr)
				break loop
			}
			s.add(p, cfg, o, distinct)
			if run%61 == 0 && !*large && len(s.Hashes) < 400 {
				s.Hashes[strconv.FormatInt(run, 10)] = fmt.Sprintf("%016x", o.Hash)
			}
			if len(s.Sample) == 0 && o.Overlaps > 2 && o.Class == "" {
				s.Sample = append([]string{fmt.Sprintf("run %d: policy %s, statement preemption %g, %d scheduling decisions, interleaving %016x", run, simrt.PolicyNames[cfg.Policy], cfg.StmtP, o.Res.Stats.Points, o.Res.Stats.Interleaving)}, o.History()...)
				if len(s.Sample) > 40 {
					s.Sample = nil // too long to print
				}
			}
			if *large && o.Class == "" {
				break loop
			}
			if o.Class != "" {
				viol, violRun = &harness.Found{Prog: p, Cfg: cfg, Out: o}, run
				break loop
			}
		}
		if k%16 == 0 && *stopFile != "" {
			if _, err := os.Stat(*stopFile); err == nil {
				break
			}
		}
	}
	for i, n := range simrt.Cover {
		if n > 0 && i < len(simrt.Sites) {
			s.Cover[simrt.Sites[i]] += int64(n)
		} else if i < len(simrt.Sites) {
			s.Cover[simrt.Sites[i]] += 0
		}
	}
	s.WallS = time.Since(start).Seconds()
	hb := make([]byte, 0, 8*len(distinct))
	for h := range distinct {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	os.WriteFile(*out+".distinct", hb, 0o644)
	if viol != nil {
		// Stop the others early.
		if *stopFile != "" {
			os.WriteFile(*stopFile, nil, 0o644)
		}
		before := viol.Out.Calls
		orig := *viol
		save := func(m *harness.Found, fin *harness.Outcome) {
			r := Replay{Property: *profile, Class: fin.Class, Message: fin.Msg, VerifSeed: *seed, Run: violRun, Build: build(), Mode: "seed",
				Config: m.Cfg, Program: m.Prog, Tries: m.Tries, FromCalls: before, Calls: fin.Calls, Preempt: len(fin.Res.Schedule), History: fin.History(), Events: fin.Res.Events}
			if m.Cfg.Replay {
				r.Mode = "schedule"
			}
			if len(r.Events) > 3000 {
				r.Events = r.Events[len(r.Events)-3000:]
			}
			b, _ := json.MarshalIndent(r, "", " ")
			s.Violation = *out + ".replay.json"
			os.WriteFile(s.Violation+".new", b, 0o644)
			os.Rename(s.Violation+".new", s.Violation)
			b, _ = json.Marshal(s)
			os.WriteFile(*out+".summary.json", b, 0o644)
		}
		// What was found stands, should the minimisation not end.
		save(&orig, orig.Out)
		time.AfterFunc(time.Duration((*minSecs+40)*float64(time.Second)), func() {
			fmt.Fprintln(os.Stderr, "vsim: minimising takes too long; the run stays as it was found")
			os.Exit(1)
		})
		m := harness.Minimize(viol, time.Duration(*minSecs*float64(time.Second)))
		cfg := m.Cfg
		cfg.Trace = true
		fin := runOne(m.Prog, cfg)
		if fin.Class != orig.Out.Class {
			fmt.Fprintf(os.Stderr, "vsim: the minimised run (%d calls, %d tries) ends with class %q %s%s instead of %q\n", m.Out.Calls, m.Tries, fin.Class, fin.Msg, fin.HarnessErr, orig.Out.Class)
			// Not reproduced with the trace on: fall back to the original run.
			m = &orig
			cfg = m.Cfg
			cfg.Trace = true
			fin = runOne(m.Prog, cfg)
			if fin.Class == "" {
				fin = m.Out
			}
		}
		save(m, fin)
		os.Exit(1)
	}
	b, _ := json.Marshal(s)
	os.WriteFile(*out+".summary.json", b, 0o644)
}

func (s *Summary) add(p *harness.Program, cfg simrt.Config, o *harness.Outcome, distinct map[uint64]struct{}) {
	st := o.Res.Stats
	s.Calls += int64(o.Calls)
	s.Points += st.Points
	s.SyncOps += st.SyncOps
	s.Switches += st.Switches
	s.Preempts += st.Preempts
	s.StmtPre += st.StmtPreempts
	s.Tasks += st.Tasks
	s.Blocks += st.Blocks
	s.SimNs += st.SimTime
	s.EnvDraws += st.EnvDraws
	s.MapShuffles += st.MapShuffles
	s.PoolDrops += st.PoolDrops
	s.Overlaps += o.Overlaps
	s.Late += o.Late
	s.Scribbles += o.Scribbles
	s.Refused += o.Refused
	s.LinNodes += int64(o.LinNodes)
	if o.LinUnknown {
		s.LinUnknown++
	}
	if cfg.Policy == simrt.PolStarve {
		s.Starved++
	}
	s.Policies[simrt.PolicyNames[cfg.Policy]]++
	for i, n := range harness.CompNames() {
		if o.Stalls[i] > 0 {
			s.Faults["stall in "+n] += o.Stalls[i]
		}
		if o.Panics[i] > 0 {
			s.Faults["panic in "+n] += o.Panics[i]
		}
	}
	if o.Overlaps > 0 {
		s.Nontrivial++
		b, _ := json.Marshal(p.Clients)
		distinct[harness.Mix(st.Interleaving, harness.HashString(string(b)))] = struct{}{}
	}
}

// hashes re-executes runs given on stdin and prints their hashes.
func hashes(args []string) {
	profile := args[0]
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	go watchdog(60 * time.Second)
	var runs []int64
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		n, _ := strconv.ParseInt(sc.Text(), 10, 64)
		runs = append(runs, n)
	}
	sort.Slice(runs, func(i, j int) bool { return runs[i] > runs[j] }) // another order than the workers'
	for _, n := range runs {
		p, cfg := caseFor(profile, seed, n)
		o := runOne(p, cfg)
		fmt.Printf("%d %016x %s\n", n, o.Hash, o.Class)
	}
}

// dump writes the replay file of a run that ends the process.
func dump(args []string) {
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	n, _ := strconv.ParseInt(args[2], 10, 64)
	p, cfg := caseFor(args[0], seed, n)
	calls := 0
	for _, c := range p.Clients {
		calls += len(c)
	}
	b, _ := json.MarshalIndent(Replay{Property: args[0], Class: "crash", VerifSeed: seed, Run: n, Build: build(), Mode: "seed",
		Config: cfg, Program: p, FromCalls: calls, Calls: calls}, "", " ")
	if err := os.WriteFile(args[3], b, 0o644); err != nil {
		os.Exit(2)
	}
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if r.Program == nil || harness.Profiles[r.Property] == nil {
		fmt.Fprintln(os.Stderr, "not a replay file of this simulator")
		os.Exit(2)
	}
	go watchdog(60 * time.Second)
	cfg := r.Config
	cfg.Trace = true
	o := runOne(r.Program, cfg)
	for _, l := range o.History() {
		fmt.Println(l)
	}
	if o.Class == "" {
		fmt.Println("the run does not violate the property")
		return
	}
	fmt.Printf("class: %s\n%s\n", o.Class, o.Msg)
	if o.Class != r.Class {
		fmt.Printf("(the file reports class %s)\n", r.Class)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	os.Exit(1)
}
