package harness

import (
	"fmt"
	"os"
	"strings"

	"github.com/sonirico/visigoth"

	"vsim/simrt"
	"vsim/touch"
)

// Outcome of one simulated run.
type Outcome struct {
	Class, Msg string // empty: the property held
	Res        *simrt.Result
	Hash       uint64 // of everything observable in the run
	Calls      int
	LinUnknown bool
	LinNodes   int
	Stalls     [numComps]int64
	Panics     [numComps]int64
	Late       int64
	Scribbles  int64
	Refused    int64
	Overlaps   int64 // pairs of calls of different clients that overlapped in time
	Races      int
	HarnessErr string
	world      *world
}

func CompNames() []string { return compNames[:] }

func (w *world) buildStandalone() {
	for i, l := range w.p.Indices {
		mi := visigoth.NewMemoryIndex(fmt.Sprintf("standalone%d", i), w.pl)
		for _, d := range l {
			mi.Put(w.p.Docs[d].request())
		}
		w.mi = append(w.mi, mi)
	}
}

func (w *world) computeSolo() {
	w.solo = map[string][]string{}
	old := w.p.Shared
	w.p.Shared = false
	pl := w.pipeline()
	w.p.Shared = old
	for _, c := range w.p.Clients {
		for _, o := range c {
			if o.K == "tok" {
				if _, ok := w.solo[o.T]; !ok {
					w.solo[o.T] = touch.Strings(pl.Tokenize(o.T))
				}
			}
		}
	}
}

func defaultRoot(w *world, p *Program) {
	if !p.Fresh {
		w.computeSolo()
	}
	w.open()
	for i := range p.Setup {
		w.do(-1, &p.Setup[i])
	}
	for _, c := range p.Clients {
		for _, o := range c {
			if w.guarded(&o) {
				w.putsLeft++
			}
		}
	}
	var ts []*simrt.Task
	for i := range p.Clients {
		i := i
		ts = append(ts, simrt.GoClient(fmt.Sprintf("client %d", i), func() { w.client(i, p.Clients[i]) }))
	}
	simrt.Join(ts)
	if p.Fresh {
		w.computeSolo()
		for _, l := range w.recs {
			for _, r := range l {
				if r.Op.K == "tok" && r.Returned && !r.Failed {
					w.asAlone(r)
				}
			}
		}
	}
	for i := range p.Post {
		w.do(-1, &p.Post[i])
	}
	w.audit()
	w.finish()
}

// ConfigFor derives the schedule and environment of run n of a program.
func ConfigFor(p *Program, seed uint64) simrt.Config {
	r := NewRng(Mix(seed, 0x5c4ed))
	c := simrt.Config{SchedSeed: r.U64(), EnvSeed: r.U64()}
	c.Policy = r.N(simrt.NumPolicies)
	if r.P(0.3) {
		c.Policy = simrt.PolRandom
	}
	if p.Fair {
		c.Policy = []int{simrt.PolRandom, simrt.PolRR}[r.N(2)]
	}
	c.SwitchP = []float64{0.05, 0.2, 0.5}[r.N(3)]
	c.PCTDepth = r.Range(1, 5)
	c.StmtP = []float64{0, 0, 0.005, 0.03, 0.15}[r.N(5)]
	return c
}

// RaceLog reads what the race detector wrote since the last call.
type RaceLog struct {
	Path string
	off  int64
}

func (l *RaceLog) Next() string {
	if l.Path == "" {
		return ""
	}
	f, err := os.Open(fmt.Sprintf("%s.%d", l.Path, os.Getpid()))
	if err != nil {
		return ""
	}
	defer f.Close()
	st, _ := f.Stat()
	b := make([]byte, st.Size()-l.off)
	n, _ := f.ReadAt(b, l.off)
	l.off += int64(n)
	return string(b[:n])
}

// Races of this process.
var Races RaceLog

// RunOne executes a program under a configuration and judges it.
func RunOne(p *Program, cfg simrt.Config) *Outcome {
	pr := Profiles[p.Profile]
	w := newWorld(p)
	races := simrt.RaceErrors()
	root := pr.Root
	if p.Huge > 0 {
		root = huge
	} else if root == nil {
		root = defaultRoot
	}
	res := simrt.Run(cfg, func() { root(w, p) })
	o := &Outcome{Res: res, world: w, Stalls: w.stalls, Panics: w.panics, Late: w.late, Scribbles: w.scrib}
	o.Races = simrt.RaceErrors() - races
	w.stats(o)
	switch {
	case o.Races > 0:
		rep := Races.Next()
		frames := raceFrames(rep)
		if frames == "" {
			o.HarnessErr = "the race detector reports a race without a frame of the code under test:\n" + rep
			return o
		}
		o.Class, o.Msg = "race", "data race:\n"+frames
	case res.Fail != nil:
		o.Class, o.Msg = res.Fail.Kind, res.Fail.Msg
		if strings.HasPrefix(o.Class, "check:") {
			o.Class = o.Class[6:]
		}
	case p.Huge > 0:
	default:
		o.Class, o.Msg = w.judge(pr, o)
	}
	return o
}

func (w *world) judge(pr *Profile, o *Outcome) (string, string) {
	for _, l := range w.recs {
		for _, r := range l {
			if !r.Returned {
				return "unfinished", r.describe(w.p.Docs)
			}
			if r.Bad != "" {
				return "wrong-row", r.describe(w.p.Docs)
			}
			if pr.Checks.Text && r.Op.K == "string" {
				var wrong string
				if r.Shown, wrong = readText(r.Text); wrong != "" {
					return "garbled-text", r.describe(w.p.Docs) + ": " + wrong
				}
			}
		}
	}
	if w.p.Uses {
		if k, m := w.uses(); k != "" {
			return k, m
		}
	}
	if pr.Extra != nil {
		if k, m := pr.Extra(w); k != "" {
			return k, m
		}
	}
	if pr.Lin {
		for rp := range w.repos {
			ck := newChecker(w.p, pr.Checks, w.history(rp))
			v := ck.check()
			o.LinNodes += ck.nodes
			switch v {
			case linIllegal:
				return "not-linearizable", ck.explain()
			case linUnknown:
				o.LinUnknown = true
			}
		}
	}
	return "", ""
}

// measures are those of the calls that have been recorded.
type measures struct {
	h                        uint64
	calls, refused, overlaps int64
}

func (m *measures) add(v uint64) { m.h = (m.h ^ v) * 1099511628211; m.h ^= m.h >> 31 }

// sum adds the recorded calls to the measures of the run.
func (w *world) sum() {
	o, add := &w.sums, w.sums.add
	for c, l := range w.recs {
		for _, r := range l {
			o.calls++
			add(uint64(c))
			add(uint64(r.Call))
			add(uint64(r.Ret))
			add(HashString(r.Op.K + r.Op.A + "/" + r.Op.B))
			if r.OK {
				add(11)
			}
			if r.Err {
				add(12)
			}
			if r.Failed {
				add(13)
			}
			for _, d := range r.Res {
				add(uint64(d) + 100)
			}
			for _, n := range r.Names {
				add(HashString(n))
			}
			for _, n := range r.names {
				add(HashString(n)) // in the order received
			}
			for _, a := range r.Aliases {
				add(HashString(a.Alias))
				for _, n := range a.Indices {
					add(HashString(n))
				}
			}
			if r.Returned && (r.Err || !r.OK && (r.Op.K == "alias" || r.Op.K == "unalias" || r.Op.K == "rename" || r.Op.K == "drop")) {
				o.refused++
			}
		}
	}
	for i := 1; i < len(w.recs); i++ {
		for j := i + 1; j < len(w.recs); j++ {
			for _, a := range w.recs[i] {
				for _, b := range w.recs[j] {
					if a.Returned && b.Returned && a.Call < b.Ret && b.Call < a.Ret {
						o.overlaps++
					}
				}
			}
		}
	}
}

// stats computes the run's hash and its measures.
func (w *world) stats(o *Outcome) {
	w.sum()
	o.Calls, o.Refused, o.Overlaps = int(w.sums.calls), w.sums.refused, w.sums.overlaps
	add := w.sums.add
	s := o.Res.Stats
	add(s.Interleaving)
	add(uint64(s.Points))
	add(uint64(s.SimTime))
	add(uint64(s.EnvDraws))
	add(uint64(s.StmtPreempts))
	if o.Res.Fail != nil {
		add(HashString(o.Res.Fail.Kind))
	}
	o.Hash = w.sums.h
	if w.frozen {
		o.Hash = w.frozenAt
	}
}

// History renders the recorded calls.
func (o *Outcome) History() []string {
	var out []string
	w := o.world
	var all []*Rec
	for _, l := range w.recs {
		all = append(all, l...)
	}
	for i := 1; i < len(all); i++ {
		for j := i; j > 0 && all[j].Call < all[j-1].Call; j-- {
			all[j], all[j-1] = all[j-1], all[j]
		}
	}
	for _, r := range all {
		if r.Call == 0 {
			continue
		}
		out = append(out, r.describe(w.p.Docs))
	}
	return out
}

// raceFrames shortens the report to the frames of the code under test.
func raceFrames(rep string) string {
	var out []string
	lines := strings.Split(rep, "\n")
	found := false
	for i, l := range lines {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Previous write"), strings.HasPrefix(t, "Previous read"):
			f := strings.Fields(t)
			if strings.HasPrefix(t, "Previous") {
				out = append(out, "  "+f[0]+" "+f[1])
			} else {
				if len(out) >= 12 {
					return done(out, found)
				}
				out = append(out, "  "+f[0])
			}
		case strings.HasPrefix(t, "Goroutine"):
			if len(out) > 0 && i+1 < len(lines) {
				out = append(out, "")
			}
			return done(out, found)
		case strings.Contains(t, "github.com/sonirico/") || strings.Contains(t, "vsim/touch."):
			if strings.HasPrefix(t, "/") || i+1 >= len(lines) {
				continue
			}
			loc := strings.TrimSpace(lines[i+1])
			if j := strings.Index(loc, " +0x"); j > 0 {
				loc = loc[:j]
			}
			if j := strings.LastIndex(loc, "/"); j >= 0 {
				loc = loc[j+1:]
			}
			name := t
			if j := strings.LastIndex(name, "/"); j >= 0 {
				name = name[j+1:]
			}
			out = append(out, "    "+strings.TrimSuffix(name, "()")+" "+loc)
			found = true
		}
	}
	return done(out, found)
}

func done(out []string, found bool) string {
	if !found {
		return ""
	}
	return strings.TrimRight(strings.Join(out, "\n"), "\n")
}
