package harness

import (
	"fmt"
	"strings"
)

// Fault is injected into one call: at the Nth callback of a component, panic or stall.
type Fault struct {
	Comp string `json:"component"` // tokenizer, filter, engine, indexer, index-put, index-put-after, index-search, builder
	Nth  int    `json:"nth"`
	Kind string `json:"kind"` // panic, stall
	Dur  int64  `json:"stall_ns,omitempty"`
	Val  int    `json:"value,omitempty"` // which panic value
	All  bool   `json:"every,omitempty"` // at every later callback too
}

// Doc is one document of a program; its content is unique.
type Doc struct {
	ID   string `json:"id"`
	Raw  string `json:"raw"`
	Stmt string `json:"statement"`
	Ctor int    `json:"ctor"` // 0 NewDocRequest, 1 NewDocRequestWith, 2 NewDocRequestWithMime
}

// Op is one call of a client.
type Op struct {
	K     string `json:"op"`
	R     int    `json:"repo,omitempty"`
	A     string `json:"a,omitempty"`
	B     string `json:"b,omitempty"`
	D     int    `json:"doc,omitempty"`
	T     string `json:"terms,omitempty"`
	E     string `json:"engine,omitempty"`
	F     *Fault `json:"fault,omitempty"`
	Late  int    `json:"read_late,omitempty"` // 0: at once; n: one row after each further call; -1: after everything
	Part  int    `json:"read_rows,omitempty"` // read only n-1 rows
	Close int    `json:"close,omitempty"`     // close the stream so often when done with it
	Scr   bool   `json:"scribble,omitempty"`  // change the received values
	Until bool   `json:"until_put,omitempty"` // C03: repeat until the calls that must not starve are done
	Sleep int64  `json:"sleep_ns,omitempty"`  // think time before the call
}

// Program is a whole test case, without the schedule.
type Program struct {
	Profile  string   `json:"profile"`
	Seed     uint64   `json:"seed"`
	Pipe     int      `json:"pipeline"`
	Wrap     bool     `json:"wrapped_index"`
	Yield    bool     `json:"components_yield"`
	Shared   bool     `json:"tokenizer_returns_shared_slices"`
	ScrTok   bool     `json:"engine_changes_its_tokens"`
	Bare     bool     `json:"engines_not_wrapped,omitempty"` // where they have no fault
	BarePipe bool     `json:"pipeline_not_wrapped,omitempty"`
	Classes  bool     `json:"tokenizer_of_own_classes,omitempty"`
	Fresh    bool     `json:"alone_comes_last,omitempty"` // what calls give alone is found out afterwards: nothing is warmed up
	Probe    bool     `json:"engines_examine_their_index,omitempty"`
	Excl     bool     `json:"index_exclusion_checked,omitempty"`
	Uses     bool     `json:"component_uses_counted,omitempty"`
	Huge     int      `json:"huge_index,omitempty"`
	Batches  int      `json:"batches,omitempty"` // C24: how often the clients' calls are made
	Swap     int      `json:"swap,omitempty"`    // C28: how an index takes the place of another between batches
	Repos    int      `json:"repos"`
	OneBld   bool     `json:"repos_share_one_builder"`
	Docs     []Doc    `json:"docs"`
	Setup    []Op     `json:"setup"`
	Clients  [][]Op   `json:"clients"`
	Post     []Op     `json:"post,omitempty"` // by main, after all clients
	Fair     bool     `json:"fair_schedules_only,omitempty"`
	Indices  [][]int  `json:"standalone_indices,omitempty"` // document numbers
	Names    []string `json:"names"`
	Gens     []string `json:"generations,omitempty"`
	Groups   []string `json:"groups,omitempty"`
}

// Rng is the harness's seeded generator.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(a, b int) int     { return a + r.N(b-a+1) }
func (r *Rng) P(p float64) bool       { return float64(r.U64()>>11)/(1<<53) < p }
func (r *Rng) Pick(s []string) string { return s[r.N(len(s))] }
func Mix(a, b uint64) uint64          { r := Rng{a ^ (b+1)*0xff51afd7ed558ccd}; r.U64(); return r.U64() }
func HashString(s string) (h uint64) {
	h = 1469598103934665603
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return
}

var namePools = [][]string{
	{"a", "b", "c", "d", "e"},
	{"courses", "books", "latest", "courses:v1", "courses:v2"},
	{"", "x", "índice", "a b", "\x00"},
	{"i1", "i2", "i3", "al", "bl"},
	{"n", "N", "n ", " n", "ñ"}, // differ only in case, blanks or accents
	{long, long + "2", "x" + long, long[:299], "s"},
	{"a/b", "a", "b", "a,b", "a:b"},
}

var long = strings.Repeat("índice-muy-largo", 20)

// gen builds programs.
type gen struct {
	r         *Rng
	p         *Program
	words     [][]word
	names     []string
	shared    float64 // probability that a document reuses an id
	longDocs  float64 // probability of a long document
	oddIDs    bool
	oddRaw    bool
	closes    float64 // probability that a stream is closed
	longWords bool
	cfg       genCfg
}

type genCfg struct {
	faults   float64 // probability of a fault on a call that can have one
	panics   bool
	stalls   bool
	late     float64
	scribble float64
	engines  []string
	termsMax int
}

func newGen(profile string, seed uint64) *gen {
	r := NewRng(seed)
	p := &Program{Profile: profile, Seed: seed, Repos: 1}
	g := &gen{r: r, p: p}
	p.Pipe = r.N(numPipes)
	p.Wrap = r.P(0.3)
	p.Yield = r.P(0.5)
	p.Shared = p.Pipe != PipePlain && r.P(0.25)
	p.ScrTok = !p.Shared && r.P(0.25) // the tokens an engine gets are only its own if the tokenizer does not share them
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		g.words = append(g.words, vocabGroups[r.N(len(vocabGroups))])
	}
	if x := NewRng(Mix(seed, 0x0dd)); x.P(0.03) {
		g.words[0] = oddGroups[x.N(len(oddGroups))]
	}
	g.longWords = r.P(0.03)
	if g.longWords {
		g.words = append(g.words, longGroups[r.N(len(longGroups))])
	}
	g.names = namePools[r.N(len(namePools))]
	if r.P(0.2) {
		g.longDocs = 0.2
	}
	g.oddIDs = r.P(0.08)
	g.oddRaw = r.P(0.08)
	g.closes = []float64{0, 0, 0.3, 0.9}[g.r.N(4)]
	g.shared = []float64{0, 0.2, 0.6}[r.N(3)]
	g.cfg = genCfg{engines: []string{"all", "hits", "linear"}, termsMax: 3, stalls: true, faults: []float64{0, 0.1, 0.3}[r.N(3)], late: 0.2, scribble: 0.2}
	if r.P(0.1) {
		g.cfg.engines = append(g.cfg.engines, "zero")
	}
	p.OneBld = r.P(0.5)
	p.Bare = r.P(0.3)
	p.BarePipe = !p.Shared && r.P(0.15)
	p.Classes = r.P(0.15)
	p.Fresh = r.P(0.5)
	return g
}

func (g *gen) text(min, max int, unknown float64) string {
	n := g.r.Range(min, max)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(separators[g.r.N(len(separators))])
		}
		switch {
		case g.r.P(unknown):
			b.WriteString(unknownWords[g.r.N(len(unknownWords))])
		case g.r.P(0.12):
			b.WriteString(stopForms[g.r.N(len(stopForms))])
		default:
			w := g.words[g.r.N(len(g.words))]
			b.WriteString(w[g.r.N(len(w))].form)
		}
	}
	return b.String()
}

// doc adds a document and returns its number.
func (g *gen) doc() int {
	n := len(g.p.Docs)
	d := Doc{Ctor: g.r.N(3)}
	d.ID = fmt.Sprintf("d%03d", (n*7919)%1000) // ids are not in storage order
	if n > 0 && g.r.P(g.shared) {
		d.ID = g.p.Docs[g.r.N(n)].ID
	} else if g.r.P(0.05) {
		d.ID = ""
	} else if g.oddIDs {
		d.ID = fmt.Sprintf([]string{"d%d", "D%d", " d%d", "d%d ", "d%d\x00", "ñ%d", "n%d", long + "%d", "%d" + long, "%08d", "%d", "d\u0301%d", "\"%d\"", "d/%d"}[g.r.N(14)], n/4)
	}
	t := g.text(0, 5, 0)
	if g.r.P(g.longDocs) {
		t = g.text(6, 80, 0)
		if g.r.P(0.02) { // a very long one, with something of interest at its end
			w := g.words[g.r.N(len(g.words))]
			l := w[g.r.N(len(w))].form
			if g.r.P(0.5) {
				l += " " + unknownWords[0]
			}
			t = strings.Repeat(l+" ", g.r.Range(60, 2500)) + g.text(1, 3, 0)
		}
	}
	uid := fmt.Sprint(100000 + n)
	if d.Ctor == 1 {
		d.Raw = "content " + uid
		d.Stmt = t
		if g.oddRaw {
			d.Raw = fmt.Sprintf([]string{" %s ", "\n%s\n", "%s\u200b", "%s\x00", "{\"n\":%s}", "ÁRBOL %s", long + "%s", "%s" + long, "<b>%s</b>"}[g.r.N(9)], uid)
			if g.r.P(0.02) {
				d.Raw = strings.Repeat("contenido ", g.r.Range(400, 15000)) + uid
			}
		}
	} else {
		d.Raw = uid + " " + t
		d.Stmt = d.Raw
	}
	g.p.Docs = append(g.p.Docs, d)
	return n
}

func (g *gen) terms() string {
	switch {
	case g.r.P(0.05):
		return ""
	case g.r.P(0.05):
		return "¡! -"
	case g.r.P(0.08) && len(g.p.Docs) > 0:
		return fmt.Sprint(100000 + g.r.N(len(g.p.Docs)))
	}
	if g.r.P(0.03) {
		return g.text(4, 20, 0.01)
	}
	if g.r.P(0.003) && !g.longWords { // very many terms
		n := []int{17, 33, 33, 65, 65, 129, 256, 257, 300}[g.r.N(9)]
		if g.r.P(0.5) {
			return g.text(n, n, 0)
		}
		w := g.words[g.r.N(len(g.words))]
		return strings.Repeat(w[g.r.N(len(w))].form+" ", n) + g.text(0, 2, 0)
	}
	return g.text(1, g.cfg.termsMax, 0.06)
}

func (g *gen) engine() string { return g.r.Pick(g.cfg.engines) }

func (g *gen) name() string { return g.names[g.r.N(len(g.names))] }

var putComps = []string{"tokenizer", "filter", "index-put", "index-put-after", "builder"}
var searchComps = []string{"tokenizer", "filter", "engine", "engine-after", "indexer", "index-search"}

func (g *gen) fault(put bool) *Fault {
	if !g.r.P(g.cfg.faults) {
		return nil
	}
	comps := searchComps
	if put {
		comps = putComps
	}
	f := &Fault{Comp: g.r.Pick(comps), Nth: 1, Kind: "stall", All: g.r.P(0.3)}
	switch g.r.N(4) {
	case 0:
		f.Nth = 2
	case 1:
		f.Nth = g.r.Range(2, 4)
	}
	if g.cfg.panics && (!g.cfg.stalls || g.r.P(0.8)) {
		f.Kind = "panic"
		f.Val = g.r.N(6)
	} else {
		f.Dur = int64(g.r.Range(1, 2000)) * 1000
		if g.r.P(0.15) {
			f.Dur = g.long()
		}
		f.All = f.All && f.Comp != "indexer"
	}
	return f
}

// stalledString prints the repository and stalls in one of its indices, or in each.
func (g *gen) stalledString(dur int64) Op {
	f := &Fault{Comp: "index-string", Nth: g.r.Range(1, 3), Kind: "stall", Dur: dur, All: g.r.P(0.3)}
	if g.r.P(0.5) {
		f.Nth = 1
	}
	return Op{K: "string", F: f}
}

func (g *gen) put(name string) Op {
	return Op{K: "put", A: name, D: g.doc(), F: g.fault(true)}
}

func (g *gen) search(name string) Op {
	o := Op{K: "search", A: name, T: g.terms(), E: g.engine(), F: g.fault(false)}
	if g.r.P(g.cfg.late) {
		o.Late = []int{1, 2, -1}[g.r.N(3)]
	}
	if g.r.P(g.cfg.scribble) {
		o.Scr = true
	}
	if g.r.P(g.closes) {
		o.Close = g.r.Range(1, 2)
		if o.Late == 0 && g.r.P(0.2) {
			o.Part = g.r.Range(1, 3)
		}
	}
	return o
}

// op draws a call by weight.
func (g *gen) op(w map[string]int) Op {
	order := []string{"put", "search", "list", "aliases", "has", "hasalias", "alias", "unalias", "unaliasall", "rename", "drop", "string"}
	total := 0
	for _, k := range order {
		total += w[k]
	}
	n := g.r.N(total)
	kind := ""
	for _, k := range order {
		if n < w[k] {
			kind = k
			break
		}
		n -= w[k]
	}
	switch kind {
	case "put":
		return g.put(g.name())
	case "search":
		return g.search(g.name())
	case "list", "aliases":
		return Op{K: kind, Scr: g.r.P(g.cfg.scribble)}
	case "has", "hasalias", "drop":
		return Op{K: kind, A: g.name()}
	case "unaliasall":
		return Op{K: "unalias", A: g.name(), B: ""}
	case "alias", "unalias", "rename":
		o := Op{K: kind, A: g.name(), B: g.name()}
		return o
	case "string":
		if g.cfg.stalls && g.r.P(g.cfg.faults) {
			return g.stalledString(int64(g.r.Range(1, 2000)) * 1000)
		}
	}
	return Op{K: kind}
}

// preload adds documents to a name in the sequential part.
func (g *gen) preload(name string, n int) {
	for i := 0; i < n; i++ {
		o := g.put(name)
		o.F = nil
		g.p.Setup = append(g.p.Setup, o)
	}
}

func (g *gen) clients(n, min, max int, w map[string]int) {
	for i := 0; i < n; i++ {
		var ops []Op
		for k := g.r.Range(min, max); k > 0; k-- {
			o := g.op(w)
			if g.r.P(0.05) {
				o.Sleep = int64(g.r.Range(1, 3000)) * 1000
			} else if g.r.P(0.015) {
				o.Sleep = g.long()
			}
			ops = append(ops, o)
		}
		g.p.Clients = append(g.p.Clients, ops)
	}
}

// long is a second to a month.
func (g *gen) long() int64 {
	d := int64(g.r.Range(1, 30))
	for n := g.r.N(4); n > 0; n-- {
		d *= []int64{10, 20, 60}[g.r.N(3)]
	}
	if d > 30*86400 {
		d = 30 * 86400
	}
	return d * 1e9
}

// sequentialise some history before the concurrent part: aliases, renames and so on.
func (g *gen) setupOps(n int, w map[string]int) {
	for i := 0; i < n; i++ {
		o := g.op(w)
		o.F = nil
		o.Late = 0
		g.p.Setup = append(g.p.Setup, o)
	}
}
