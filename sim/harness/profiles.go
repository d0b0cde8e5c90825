package harness

import (
	"fmt"
	"sort"
	"strings"

	"vsim/simrt"
)

// Profile is the workload and the oracle of one property.
type Profile struct {
	ID     string
	Gen    func(seed uint64) *Program
	Checks Checks
	Lin    bool // histories are checked against the model
	Extra  func(w *world) (kind, msg string)
	Root   func(w *world, p *Program)
}

// Profiles by property id.
var Profiles = map[string]*Profile{}

func register(p *Profile) {
	switch p.ID {
	case "C01", "C02", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C14", "C15", "C19", "C23", "C27":
		gen := p.Gen
		p.Gen = func(seed uint64) *Program {
			q := gen(seed)
			repeatPuts(q, NewRng(Mix(seed, 0xd0b1e)))
			wrapAround(q, NewRng(Mix(seed, 0xc1c1e)))
			widen(q, NewRng(Mix(seed, 0x111de)))
			return q
		}
	}
	Profiles[p.ID] = p
}

// widen makes, in a few programs, an alias stand for more indices than a byte can number.
func widen(p *Program, r *Rng) {
	if !r.P(0.01) || len(p.Docs) == 0 || p.Repos > 1 {
		return
	}
	n, alias := 0, ""
	for i := range p.Setup {
		if o := &p.Setup[i]; o.K == "alias" && strings.HasPrefix(o.B, o.A+".") {
			n, alias = n+1, o.A
		}
	}
	if n == 0 {
		return
	}
	for want := r.Range(257, 300); n < want; n++ {
		name := fmt.Sprintf("%s.%d", alias, n)
		p.Setup = append(p.Setup, Op{K: "put", A: name, D: r.N(len(p.Docs))}, Op{K: "alias", A: alias, B: name})
		p.Names = append(p.Names, name)
	}
}

// repeatPuts makes some calls, in some programs, put a document that another call puts too.
func repeatPuts(p *Program, r *Rng) {
	if !r.P(0.1) {
		return
	}
	var puts []*Op
	add := func(l []Op) {
		for i := range l {
			if l[i].K == "put" && l[i].F == nil && len(puts) < 60 {
				puts = append(puts, &l[i])
			}
		}
	}
	add(p.Setup)
	for _, c := range p.Clients {
		add(c)
	}
	if len(puts) < 2 {
		return
	}
	for n := r.Range(1, 4); n > 0; n-- {
		k := r.Range(1, len(puts)-1)
		if r.P(0.5) {
			puts[k].D = puts[k-1].D
		} else {
			puts[k].D = puts[r.N(k)].D
		}
	}
}

// wrapAround lets some programs begin with reads, a power of two of changes and the same reads, which must see them.
func wrapAround(p *Program, r *Rng) {
	if !r.P(0.012) || len(p.Setup) > 300 {
		return
	}
	var search *Op
	docs := 0
	find := func(l []Op) {
		for i := range l {
			if l[i].K == "search" && l[i].F == nil && search == nil {
				search = &l[i]
			}
			if l[i].K == "put" && l[i].F == nil && l[i].D < len(p.Docs) {
				docs++
			}
		}
	}
	find(p.Setup)
	for _, c := range p.Clients {
		find(c)
	}
	if docs == 0 {
		return
	}
	p.Yield = false
	n := 256
	switch r.N(4) {
	case 0:
		n = 16 << r.N(3)
	case 1:
		n = 128
	}
	doc := func() int { return r.N(len(p.Docs)) }
	var reads []Op
	for _, name := range []string{"w0", "w1", "w2", "wa"} {
		if search != nil {
			reads = append(reads, Op{K: "search", A: name, T: search.T, E: search.E})
		}
		reads = append(reads, Op{K: "has", A: name}, Op{K: "hasalias", A: name})
	}
	reads = append(reads, Op{K: "list"}, Op{K: "aliases"})
	ops := []Op{{K: "put", A: "w0", D: doc()}}
	if r.P(0.5) {
		ops = append(ops, Op{K: "put", A: "w0", D: doc()}, Op{K: "alias", A: "wa", B: "w0"})
	}
	var cycle []Op
	switch r.N(5) {
	case 0, 1:
		cycle = []Op{{K: "rename", A: "w0", B: "w1"}, {K: "rename", A: "w1", B: "w2"}, {K: "rename", A: "w2", B: "w0"}}
	case 2:
		cycle = []Op{{K: "alias", A: "wa", B: "w0"}, {K: "alias", A: "wa", B: "w1"}, {K: "unalias", A: "wa"}}
		ops = append(ops, Op{K: "put", A: "w1", D: doc()})
	case 3:
		cycle = []Op{{K: "put", A: "w1", D: doc()}, {K: "rename", A: "w1", B: "w2"}, {K: "drop", A: "w2"}}
	case 4:
		cycle = []Op{{K: "put", A: "w0", D: doc()}}
	}
	ops = append(ops, reads...)
	off := r.N(3)
	for i := 0; i < n; i++ {
		ops = append(ops, cycle[(i+off)%len(cycle)])
	}
	ops = append(ops, reads...)
	p.Setup = append(ops, p.Setup...)
	p.Names = append(p.Names, "w0", "w1", "w2", "wa")
}

func mixAll() map[string]int {
	return map[string]int{"put": 8, "search": 8, "list": 2, "aliases": 2, "has": 2, "hasalias": 1, "alias": 4, "unalias": 3, "unaliasall": 1, "rename": 4, "drop": 3}
}

// swarm switches off some kinds of calls at random.
func (g *gen) swarm(w map[string]int, keep ...string) map[string]int {
	out := map[string]int{}
	total := 0
	off := []float64{0.1, 0.25, 0.25, 0.6}[g.r.N(4)]
	for _, k := range []string{"put", "search", "list", "aliases", "has", "hasalias", "alias", "unalias", "unaliasall", "rename", "drop", "string"} {
		v := w[k]
		if v == 0 {
			continue
		}
		drop := g.r.P(off)
		for _, x := range keep {
			if x == k {
				drop = false
			}
		}
		if !drop {
			out[k] = v * g.r.Range(1, 3)
			total += out[k]
		}
	}
	if total == 0 {
		return w
	}
	return out
}

func (g *gen) someNames(min, max int) {
	n := g.r.Range(min, max)
	if n > len(g.names) {
		n = len(g.names)
	}
	off := g.r.N(len(g.names))
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, g.names[(off+i)%len(g.names)])
	}
	g.names = l
	g.p.Names = append([]string(nil), l...)
}

// fanout sets up an alias for n indices and returns its name and theirs.
func (g *gen) fanout(alias string, n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s.%d", alias, i)
		l = append(l, name)
		g.preload(name, 1)
		g.p.Setup = append(g.p.Setup, Op{K: "alias", A: alias, B: name})
		g.p.Names = append(g.p.Names, name)
	}
	g.p.Names = append(g.p.Names, alias)
	return l
}

// bulk loads, with probability p, many documents into one index.
func (g *gen) bulk(p float64, name string) {
	if !g.r.P(p) {
		return
	}
	n := g.r.Range(8, 60)
	switch {
	case g.r.P(0.4):
		n = g.r.Range(60, 140)
	case g.r.P(0.3):
		n = g.r.Range(250, 1100)
	case g.r.P(0.01):
		n = g.r.Range(2000, 3500)
	}
	if n > 40 {
		g.p.Yield = false
	}
	for _, c := range g.p.Setup {
		if c.K == "alias" && c.A == name { // not through an alias
			name = c.B
		}
	}
	later := g.p.Setup
	g.p.Setup = nil
	g.preload(name, n)
	g.p.Setup = append(g.p.Setup, later...)
}

// storm makes one call again and again, before everything else or beside it.
func (g *gen) storm(p float64, kinds ...string) {
	if !g.r.P(p) {
		return
	}
	g.p.Yield = false
	old := g.cfg
	if g.cfg.panics && g.r.P(0.8) {
		g.cfg.faults, g.cfg.stalls = 1, false
	}
	o := g.op(map[string]int{g.r.Pick(kinds): 1})
	g.cfg = old
	o.Late, o.Scr = 0, false
	if o.F != nil {
		o.F.Nth = 1
	}
	if o.K == "put" {
		return
	}
	var ops []Op
	for n := []int{12, 40, 70, 140, 270}[g.r.N(5)]; n > 0; n-- {
		ops = append(ops, o)
	}
	if len(ops) < 100 && g.r.P(0.3) {
		g.p.Clients = append(g.p.Clients, ops)
	} else {
		g.p.Setup = append(g.p.Setup, ops...)
	}
}

// past puts, with probability p, a long history of calls before everything else.
func (g *gen) past(p float64, w map[string]int) {
	if !g.r.P(p) {
		return
	}
	g.p.Yield = false
	was := g.cfg
	g.cfg.faults, g.cfg.late = 0, 0
	n := g.r.Range(30, 150)
	if g.r.P(0.2) {
		n = g.r.Range(150, 600)
	}
	g.setupOps(n, w)
	g.cfg = was
}

// manyNames gives, with probability p, the repository many indices, two of which the clients use.
func (g *gen) manyNames(p float64) {
	if !g.r.P(p) {
		return
	}
	n := g.r.Range(6, 40)
	if g.r.P(0.2) {
		n = g.r.Range(40, 140)
	}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("m%d", i)
		g.preload(name, 1)
		g.p.Names = append(g.p.Names, name)
	}
	g.names = append(g.names, fmt.Sprintf("m%d", g.r.N(n)), fmt.Sprintf("m%d", g.r.N(n)))
}

// observed makes, with probability p, programs of few changes, of clients that only look, and of what those see before any change.
func (g *gen) observed(p float64, w map[string]int) bool {
	if !g.r.P(p) {
		return false
	}
	only := func(kinds ...string) map[string]int {
		out := map[string]int{}
		for _, k := range kinds {
			if w[k] > 0 {
				out[k] = w[k]
			}
		}
		return out
	}
	changes := only("put", "alias", "unalias", "unaliasall", "rename", "drop")
	reads := only("search", "list", "aliases", "has", "hasalias")
	if len(changes) == 0 || len(reads) == 0 {
		return false
	}
	var made []Op
	for n := g.r.Range(1, 3); n > 0; n-- {
		made = append(made, g.op(changes))
	}
	about := []string{made[0].A}
	for _, o := range made {
		about = append(about, o.A)
		if o.B != "" {
			about = append(about, o.B)
		}
	}
	all := g.names
	var looks []Op
	g.names = about
	for n := g.r.Range(2, 4); n > 0; n-- {
		o := g.op(reads)
		o.Late, o.F = 0, nil
		looks = append(looks, o)
	}
	g.names = all
	g.p.Setup = append(g.p.Setup, looks...)
	if g.r.P(0.5) {
		g.p.Clients = append(g.p.Clients, made)
	} else {
		for _, o := range made {
			g.p.Clients = append(g.p.Clients, []Op{o})
		}
	}
	for n := g.r.Range(1, 3); n > 0; n-- {
		var ops []Op
		for k := g.r.Range(2, 3); k > 0; k-- {
			ops = append(ops, looks[g.r.N(len(looks))])
		}
		g.p.Clients = append(g.p.Clients, ops)
	}
	return true
}

// manyAliases gives, with probability p, the repository many aliases that nobody changes by name.
func (g *gen) manyAliases(p float64, idx []string) {
	if !g.r.P(p) {
		return
	}
	n := g.r.Range(6, 40)
	if g.r.P(0.2) {
		n = g.r.Range(40, 140)
	}
	for i := 0; i < n; i++ {
		g.p.Setup = append(g.p.Setup, Op{K: "alias", A: fmt.Sprintf("many%d", i), B: g.r.Pick(idx)})
	}
}

func (g *gen) size() (clients, ops int) {
	switch g.r.N(4) {
	case 0:
		return 2, 2
	case 1:
		return 2, g.r.Range(3, 5)
	case 2:
		return 3, g.r.Range(1, 4)
	}
	if g.r.P(0.06) {
		return g.r.Range(6, 16), 1
	}
	return g.r.Range(3, 5), g.r.Range(1, 3)
}

// width of an alias: sometimes large.
func (g *gen) width(min, max int) int {
	if g.r.P(0.04) {
		if g.r.P(0.15) {
			return g.r.Range(41, 140)
		}
		return g.r.Range(max+1, 40)
	}
	return g.r.Range(min, max)
}

func general(profile string, seed uint64, w map[string]int, keep ...string) *gen {
	g := newGen(profile, seed)
	g.someNames(2, 4)
	mix := g.swarm(w, keep...)
	setup := g.swarm(mixAll(), "put", "alias")
	g.setupOps(g.r.Range(0, 6), setup)
	if g.r.P(0.5) {
		for _, n := range g.names {
			if g.r.P(0.6) {
				g.preload(n, g.r.Range(1, 3))
			}
		}
		for i := g.r.N(4); i > 0; i-- {
			g.p.Setup = append(g.p.Setup, Op{K: "alias", A: g.name(), B: g.name()})
		}
	}
	if g.r.P(0.25) { // an alias of several indices in the middle of it
		l := g.fanout("fan", g.width(2, 3))
		g.names = append(g.names[:1], "fan", "fan", l[g.r.N(len(l))])
	}
	if g.r.P(0.02) { // many names
		for i := g.r.Range(8, 70); i > 0; i-- {
			n := fmt.Sprintf("many%d", i)
			g.preload(n, 1)
			g.p.Names = append(g.p.Names, n)
			if g.r.P(0.5) {
				g.p.Setup = append(g.p.Setup, Op{K: "alias", A: "many", B: n})
			}
			if g.r.P(0.3) {
				g.p.Setup = append(g.p.Setup, Op{K: "alias", A: "many." + n, B: n})
			}
			if i < 2 {
				g.names = append(g.names, n, "many")
			}
		}
	}
	g.bulk(0.02, g.name())
	g.past(0.006, mixAll())
	g.storm(0.02, "search", "search", "has", "hasalias", "alias", "unalias", "rename", "drop", "list", "aliases")
	if g.observed(0.1, mix) {
		return g
	}
	n, k := g.size()
	g.clients(n, 1, k, mix)
	return g
}

func init() {
	register(&Profile{ID: "C01", Lin: true, Checks: allChecks, Gen: func(seed uint64) *Program {
		g := general("C01", seed, mixAll())
		return g.p
	}})

	register(&Profile{ID: "C02", Lin: true, Checks: Checks{Search: true}, Gen: func(seed uint64) *Program {
		g := newGen("C02", seed)
		g.cfg.engines = []string{"all", "all", "all", "hits", "linear"}
		if g.r.P(0.3) { // only puts: many first puts, wide aliases
			g.someNames(1, 3)
			if g.r.P(0.5) {
				l := g.fanout("wide", g.width(2, 12))
				g.names = append(g.names, "wide", l[g.r.N(len(l))])
			}
			g.clients(g.r.Range(2, 6), 1, 5, map[string]int{"put": 1})
			return g.p
		}
		g.someNames(2, 4)
		if g.r.P(0.5) {
			for _, n := range g.names[1:] {
				g.preload(n, 1)
				g.p.Setup = append(g.p.Setup, Op{K: "alias", A: g.names[0], B: n})
			}
		}
		g.bulk(0.02, g.name())
		g.past(0.006, mixAll())
		n, k := g.size()
		g.clients(n, 1, k, g.swarm(map[string]int{"put": 12, "search": 2, "alias": 4, "unalias": 3, "unaliasall": 1, "rename": 4, "drop": 2}, "put"))
		return g.p
	}})

	register(&Profile{ID: "C03", Gen: func(seed uint64) *Program {
		g := newGen("C03", seed)
		if g.r.P(0.12) { // a put among endless searches
			g.someNames(2, 3)
			g.p.Fair = true
			g.preload(g.names[0], 2)
			g.p.Setup = append(g.p.Setup, Op{K: "alias", A: "al", B: g.names[0]})
			var put []Op
			for i := g.r.Range(1, 2); i > 0; i-- {
				o := g.put([]string{g.names[0], "al", "brandnew"}[g.r.N(3)])
				o.F = nil
				o.Sleep = int64(g.r.Range(10, 500)) * 1000
				put = append(put, o)
			}
			g.p.Clients = append(g.p.Clients, put)
			for i := g.r.Range(2, 5); i > 0; i-- {
				o := g.search([]string{g.names[0], "al"}[g.r.N(2)])
				o.Until, o.Late, o.Scr = true, 0, false
				if g.r.P(0.8) {
					o.F = &Fault{Comp: "engine", Nth: 1, Kind: "stall", Dur: int64(g.r.Range(50, 2000)) * 1000}
				}
				g.p.Clients = append(g.p.Clients, []Op{o})
			}
			return g.p
		}
		if g.r.P(0.07) { // calls that read among endless puts
			g.someNames(2, 3)
			g.p.Fair = true
			g.preload(g.names[0], 2)
			g.p.Setup = append(g.p.Setup, Op{K: "alias", A: "al", B: g.names[0]})
			g.names = append(g.names, "al")
			var look []Op
			for i := g.r.Range(1, 2); i > 0; i-- {
				o := g.op(map[string]int{"search": 8, "has": 3, "hasalias": 1, "list": 2, "aliases": 1, "string": 1})
				o.F, o.Late, o.Scr, o.Part = nil, 0, false, 0
				o.Sleep = int64(g.r.Range(10, 500)) * 1000
				look = append(look, o)
			}
			g.p.Clients = append(g.p.Clients, look)
			for i := g.r.Range(2, 4); i > 0; i-- {
				o := g.put([]string{g.names[0], "al", "busy"}[g.r.N(3)])
				o.Until, o.F = true, nil
				if g.r.P(0.7) {
					o.F = &Fault{Comp: g.r.Pick([]string{"tokenizer", "index-put"}), Nth: 1, Kind: "stall", Dur: int64(g.r.Range(50, 2000)) * 1000}
				}
				g.p.Clients = append(g.p.Clients, []Op{o})
			}
			return g.p
		}
		mix := mixAll()
		mix["string"] = 1
		g = general("C03", seed, mix)
		// more refused calls
		for i := range g.p.Clients {
			for j := range g.p.Clients[i] {
				if o := &g.p.Clients[i][j]; g.r.P(0.1) && o.K != "put" && o.K != "list" && o.K != "aliases" {
					o.B = "unknown"
				}
			}
		}
		g.p.Post = everything(g)
		return g.p
	}})

	register(&Profile{ID: "C04", Gen: func(seed uint64) *Program {
		mix := mixAll()
		mix["string"] = 2
		mix["aliases"] = 4
		mix["list"] = 3
		g := general("C04", seed, mix)
		if g.r.P(0.3) {
			l := g.fanout("wide", g.width(2, 5))
			g.names = append(g.names, "wide", l[0])
			g.clients(1, 1, 4, g.swarm(mix))
		}
		return g.p
	}})

	register(&Profile{ID: "C05", Lin: true, Checks: Checks{Search: true}, Gen: func(seed uint64) *Program {
		g := newGen("C05", seed)
		g.cfg.late = 0.85
		g.someNames(2, 3)
		for _, n := range g.names {
			if g.r.P(0.8) {
				g.preload(n, g.r.Range(0, 9))
			}
		}
		if g.r.P(0.6) {
			for _, n := range g.names[1:] {
				g.p.Setup = append(g.p.Setup, Op{K: "alias", A: "al", B: n})
			}
			g.names = append(g.names, "al")
		}
		g.p.Names = append([]string(nil), g.names...)
		if g.r.P(0.3) {
			l := g.fanout("wide", g.width(3, 8))
			for _, n := range l[1:] {
				g.preload(n, g.r.Range(0, 3))
			}
			g.names = []string{"wide", "wide", l[0], l[1], l[2]}
		}
		g.bulk(0.02, g.name())
		g.past(0.006, mixAll())
		n, k := g.size()
		g.clients(n, 2, k+1, g.swarm(map[string]int{"search": 14, "put": 10, "drop": 3, "rename": 3, "alias": 2, "unalias": 2}, "search", "put"))
		return g.p
	}})

	register(&Profile{ID: "C06", Lin: true, Checks: Checks{Search: true}, Gen: func(seed uint64) *Program {
		g := newGen("C06", seed)
		g.cfg.engines = []string{"hits", "linear"}
		g.someNames(1, 2)
		n := g.r.Range(0, 12)
		switch g.r.N(8) {
		case 0:
			n = g.r.Range(30, 90)
		case 1:
			n = g.r.Range(12, 30)
		}
		if g.r.P(0.02) {
			n = g.r.Range(90, 300)
		}
		g.bulk(0.008, g.name())
		for i := 0; i < n; i++ {
			g.preload(g.name(), 1)
		}
		if n > 40 && g.r.P(0.7) {
			g.p.Yield = false
		}
		c, k := g.size()
		g.clients(c, 1, k+1, map[string]int{"search": 6, "put": g.r.N(4), "rename": g.r.N(2)})
		if len(g.p.Docs) > 0 { // every search in both engines
			for i := g.r.Range(1, 3); i > 0; i-- {
				o := g.search(g.name())
				o.F, o.Late = nil, 0
				o.E = "hits"
				g.p.Post = append(g.p.Post, o)
				o.E = "linear"
				g.p.Post = append(g.p.Post, o)
			}
		}
		return g.p
	}})

	register(&Profile{ID: "C07", Lin: true, Checks: Checks{Search: true}, Gen: func(seed uint64) *Program {
		g := newGen("C07", seed)
		n := g.r.Range(2, 4)
		if g.r.P(0.2) {
			n = g.width(5, 12)
		}
		l := g.fanout("al", n)
		g.names = append([]string{"al", "al", "al", "al"}, l...)
		if n > 4 {
			g.names = append([]string{"al", "al", "al", "al"}, l[:3]...)
		}
		if g.r.P(0.3) {
			for i := 0; i < 2; i++ {
				g.p.Setup = append(g.p.Setup, Op{K: "alias", A: "bl", B: l[i]})
			}
			g.names = append(g.names, "bl", "bl")
			g.p.Names = append(g.p.Names, "bl")
		}
		g.bulk(0.02, g.name())
		g.past(0.006, mixAll())
		c, k := g.size()
		g.clients(c, 1, k, g.swarm(map[string]int{"search": 8, "put": 8, "alias": 3, "unalias": 3, "rename": 2, "drop": 2}, "search", "put"))
		return g.p
	}})

	register(&Profile{ID: "C08", Lin: true, Checks: Checks{Bool: true, List: true, Aliases: true, Has: true, Search: true}, Gen: func(seed uint64) *Program {
		g := newGen("C08", seed)
		g.cfg.engines = []string{"all", "all", "all", "hits", "linear"}
		g.someNames(2, 4)
		idx := g.names
		for _, n := range idx {
			if g.r.P(0.7) {
				g.preload(n, g.r.Range(1, 3))
			}
		}
		for i := g.r.Range(0, 5); i > 0; i-- {
			g.p.Setup = append(g.p.Setup, Op{K: "alias", A: []string{"al", "bl"}[g.r.N(2)], B: idx[g.r.N(len(idx))]})
		}
		g.names = append(append([]string{}, idx...), "al")
		g.p.Names = append([]string{"bl"}, g.names...)
		g.manyAliases(0.05, idx)
		g.manyNames(0.03)
		g.past(0.006, mixAll())
		mix := g.swarm(map[string]int{"rename": 14, "search": 8, "list": 4, "aliases": 4, "has": 4, "hasalias": 2, "put": 3, "alias": 3, "unalias": 2}, "rename")
		if g.observed(0.1, mix) {
			return g.p
		}
		n, k := g.size()
		g.clients(n, 1, k, mix)
		return g.p
	}})

	register(&Profile{ID: "C09", Lin: true, Checks: Checks{Bool: true, List: true, Aliases: true, Has: true, Search: true}, Gen: func(seed uint64) *Program {
		g := newGen("C09", seed)
		g.cfg.engines = []string{"all", "all", "all", "hits", "linear"}
		g.someNames(1, 3)
		idx := g.names
		for _, n := range idx {
			if g.r.P(0.8) {
				g.preload(n, g.r.Range(1, 3))
			}
		}
		for i := g.r.Range(0, 5); i > 0; i-- {
			g.p.Setup = append(g.p.Setup, Op{K: "alias", A: []string{"al", "bl"}[g.r.N(2)], B: idx[g.r.N(len(idx))]})
		}
		g.names = append(append([]string{}, idx...), "al")
		g.p.Names = append([]string{"bl"}, g.names...)
		g.manyAliases(0.05, idx)
		g.manyNames(0.03)
		g.past(0.006, mixAll())
		mix := g.swarm(map[string]int{"drop": 14, "search": 6, "list": 4, "aliases": 4, "has": 4, "hasalias": 2, "put": 6, "alias": 4, "rename": 2}, "drop")
		if g.observed(0.1, mix) {
			return g.p
		}
		n, k := g.size()
		g.clients(n, 1, k, mix)
		return g.p
	}})

	register(&Profile{ID: "C10", Lin: true, Checks: Checks{Search: true, Order: true}, Extra: repeatable, Gen: func(seed uint64) *Program {
		g := newGen("C10", seed)
		g.someNames(2, 4)
		quiet := g.names
		for i := g.r.Range(2, 20); i > 0; i-- {
			g.preload(g.name(), 1)
		}
		g.bulk(0.02, g.name())
		g.past(0.006, mixAll())
		for i := g.r.Range(1, 5); i > 0; i-- {
			g.p.Setup = append(g.p.Setup, Op{K: "alias", A: "al", B: g.name()})
		}
		if g.r.P(0.3) {
			g.p.Setup = append(g.p.Setup, Op{K: "drop", A: g.name()})
		}
		if g.r.P(0.3) {
			g.p.Setup = append(g.p.Setup, Op{K: "rename", A: g.name(), B: g.name()})
		}
		g.names = append([]string{"al", "al"}, quiet...)
		g.p.Names = g.names
		if g.r.P(0.05) {
			g.fanout("wide", g.r.Range(5, 70))
			g.names = []string{"al", "wide", "wide"}
		}
		// a few searches, repeated by everybody
		var few []Op
		for i := g.r.Range(1, 3); i > 0; i-- {
			o := g.search(g.name())
			o.Scr = false
			few = append(few, o)
		}
		for i := g.r.Range(1, 4); i > 0; i-- {
			var ops []Op
			for k := g.r.Range(2, 4); k > 0; k-- {
				o := few[g.r.N(len(few))]
				o.F, o.Late = g.fault(false), 0
				ops = append(ops, o)
			}
			g.p.Clients = append(g.p.Clients, ops)
		}
		g.p.Gens = []string{fmt.Sprint(len(g.p.Clients))} // from here on: unrelated names
		g.names = []string{"u1", "u2", "u3"}
		g.clients(g.r.N(3), 1, 3, g.swarm(map[string]int{"put": 8, "search": 3, "alias": 2, "rename": 2, "drop": 2}))
		return g.p
	}})

	register(&Profile{ID: "C11", Lin: true, Checks: allChecks, Gen: func(seed uint64) *Program {
		g := newGen("C11", seed)
		g.cfg.panics = true
		g.cfg.faults = []float64{0.3, 0.6}[g.r.N(2)]
		g.someNames(2, 4)
		if g.r.P(0.6) {
			for _, n := range g.names[1:] {
				g.preload(n, g.r.Range(1, 3))
				if g.r.P(0.7) {
					g.p.Setup = append(g.p.Setup, Op{K: "alias", A: g.names[0], B: n})
				}
			}
		} else {
			g.setupOps(g.r.Range(0, 5), mixAll())
		}
		g.past(0.006, mixAll())
		g.storm(0.05, "search")
		n := g.r.Range(1, 3)
		g.clients(n, 1, 4, g.swarm(map[string]int{"put": 10, "search": 10, "has": 1, "alias": 2, "unalias": 1, "rename": 2, "drop": 2, "list": 1}, "put", "search"))
		g.p.Post = everything(g)
		return g.p
	}})

	register(&Profile{ID: "C12", Lin: true, Checks: Checks{List: true, Aliases: true, Has: true}, Gen: func(seed uint64) *Program {
		g := newGen("C12", seed)
		g.cfg.scribble = 0.4
		g.someNames(2, 4)
		for _, n := range g.names {
			if g.r.P(0.7) {
				g.preload(n, 1)
			}
		}
		for i := g.r.Range(1, 6); i > 0; i-- {
			g.p.Setup = append(g.p.Setup, Op{K: "alias", A: g.name(), B: g.name()})
		}
		if g.r.P(0.05) {
			g.fanout("wide", g.r.Range(5, 40))
			g.names = append(g.names, "wide", "wide.1")
		}
		g.manyNames(0.08)
		g.manyAliases(0.1, g.names)
		g.past(0.006, mixAll())
		mix := g.swarm(map[string]int{"list": 8, "aliases": 12, "alias": 6, "unalias": 5, "unaliasall": 1, "rename": 5, "drop": 3, "put": 3, "has": 1, "hasalias": 1}, "list", "aliases")
		if g.observed(0.1, mix) {
			return g.p
		}
		n, k := g.size()
		g.clients(n, 1, k, mix)
		return g.p
	}})

	register(&Profile{ID: "C13", Lin: true, Checks: Checks{Search: true, Has: true, List: true, Aliases: true}, Extra: unstalled, Gen: func(seed uint64) *Program {
		g := newGen("C13", seed)
		g.someNames(2, 3)
		for _, n := range g.names {
			g.preload(n, g.r.Range(1, 3))
			if g.r.P(0.6) {
				g.p.Setup = append(g.p.Setup, Op{K: "alias", A: "al", B: n})
			}
		}
		g.names = append(g.names, "al", "al")
		g.p.Names = append([]string{}, g.names...)
		mix := map[string]int{"search": 10, "has": 3, "hasalias": 2, "list": 2, "aliases": 2, "string": 2}
		if g.r.P(0.05) {
			g.fanout("wide", g.r.Range(4, 40))
			g.names = append(g.names, "wide")
		}
		stalled := g.r.Range(1, 3)
		if g.r.P(0.06) {
			stalled = g.r.Range(4, 70)
		}
		g.cfg.faults = 0
		if g.r.P(0.25) { // searches that were slow before
			for i := g.r.Range(1, 3); i > 0; i-- {
				o := g.search(g.name())
				o.F = &Fault{Comp: g.r.Pick([]string{"tokenizer", "filter", "engine", "engine-after", "indexer"}), Nth: 1, Kind: "stall", Dur: g.long()}
				g.p.Setup = append(g.p.Setup, o)
			}
		}
		if g.r.P(0.03) { // every index of an alias stalls every search for it
			g.fanout("many", g.r.Range(4, 24))
			n := g.r.Range(2, 20)
			comp, dur := g.r.Pick([]string{"tokenizer", "filter", "engine", "engine-after", "indexer", "index-search"}), 3600e9*int64(g.r.Range(1, 1000))
			for i := 0; i < n; i++ {
				o := g.search("many")
				o.F = &Fault{Comp: comp, Nth: 1, Kind: "stall", Dur: dur, All: true}
				g.p.Clients = append(g.p.Clients, []Op{o})
			}
			g.names = append(g.names, "many")
			stalled = g.r.N(3)
		}
		for i := stalled; i > 0; i-- {
			if g.r.P(0.12) {
				g.p.Clients = append(g.p.Clients, []Op{g.stalledString(3600e9 * int64(g.r.Range(1, 1000)))})
				continue
			}
			o := g.search(g.name())
			o.F = &Fault{Comp: g.r.Pick([]string{"tokenizer", "filter", "engine", "engine-after", "indexer", "index-search"}), Nth: g.r.Range(1, 2), Kind: "stall", Dur: 3600e9 * int64(g.r.Range(1, 1000))}
			g.p.Clients = append(g.p.Clients, []Op{o})
		}
		g.clients(g.r.Range(1, 4), 1, 4, mix)
		return g.p
	}})

	register(&Profile{ID: "C14", Lin: true, Checks: Checks{Bool: true, Aliases: true, List: true, Has: true}, Extra: soundAliases, Gen: func(seed uint64) *Program {
		g := newGen("C14", seed)
		g.someNames(2, 4)
		for _, n := range g.names {
			if g.r.P(0.7) {
				g.preload(n, 1)
			}
		}
		for i := g.r.Range(0, 6); i > 0; i-- {
			g.p.Setup = append(g.p.Setup, Op{K: "alias", A: g.name(), B: g.name()})
		}
		g.manyAliases(0.05, g.names)
		g.past(0.006, mixAll())
		mix := g.swarm(map[string]int{"alias": 12, "unalias": 8, "unaliasall": 1, "aliases": 8, "hasalias": 4, "rename": 6, "drop": 5, "put": 3, "search": 2}, "alias")
		if g.observed(0.1, mix) {
			return g.p
		}
		n, k := g.size()
		g.clients(n, 1, k, mix)
		return g.p
	}})

	register(&Profile{ID: "C15", Lin: true, Checks: allChecks, Gen: func(seed uint64) *Program {
		g := newGen("C15", seed)
		g.someNames(2, 3)
		known := g.names
		for _, n := range known {
			if g.r.P(0.7) {
				g.preload(n, g.r.Range(1, 2))
			}
		}
		if g.r.P(0.6) {
			g.p.Setup = append(g.p.Setup, Op{K: "alias", A: "al", B: known[0]})
		}
		n, k := g.size()
		unknown := []string{"nope", "nada"}
		if g.r.P(0.5) { // what was unknown may come to be
			g.names = append(append([]string{}, known...), "nope", "nope", "al")
		}
		g.past(0.006, mixAll())
		g.storm(0.02, "search", "rename", "drop", "alias", "unalias")
		for i := 0; i < n; i++ {
			var ops []Op
			for j := g.r.Range(1, k+1); j > 0; j-- {
				if g.r.P(0.35) {
					o := g.op(mixAll())
					ops = append(ops, o)
					continue
				}
				u := g.r.Pick(unknown)
				kn := append(append([]string{}, known...), "al", u)
				switch g.r.N(7) {
				case 0:
					ops = append(ops, Op{K: "alias", A: g.r.Pick(kn), B: u})
				case 1:
					ops = append(ops, Op{K: "unalias", A: g.r.Pick(kn), B: u})
				case 2:
					ops = append(ops, Op{K: "unalias", A: u, B: g.r.Pick(kn)})
				case 3:
					ops = append(ops, Op{K: "rename", A: g.r.Pick([]string{u, "al"}), B: g.r.Pick(kn)})
				case 4:
					ops = append(ops, Op{K: "drop", A: g.r.Pick([]string{u, "al"})})
				case 5:
					ops = append(ops, g.search(u))
				case 6:
					ops = append(ops, Op{K: "alias", A: u, B: "al"})
				}
			}
			g.p.Clients = append(g.p.Clients, ops)
		}
		g.p.Names = append(append([]string{}, known...), "al", "nope", "nada")
		return g.p
	}})

	register(&Profile{ID: "C16", Lin: true, Checks: Checks{Search: true}, Gen: func(seed uint64) *Program {
		g := newGen("C16", seed)
		g.p.Yield = g.r.P(0.8)
		if g.p.Pipe == PipePlain && g.r.P(0.7) {
			g.p.Pipe = PipeFull
		}
		g.someNames(1, 2)
		var texts []string
		for i := g.r.Range(1, 4); i > 0; i-- {
			texts = append(texts, g.text(0, 8, 0.1))
		}
		for i := g.r.Range(2, 5); i > 0; i-- {
			var ops []Op
			for k := g.r.Range(1, 5); k > 0; k-- {
				switch g.r.N(4) {
				case 0:
					ops = append(ops, g.put(g.name()))
				case 1:
					ops = append(ops, g.search(g.name()))
				default:
					// a shared tokenizer's lists are nobody's to change
					o := Op{K: "tok", T: g.r.Pick(texts), Scr: g.r.P(0.5) && !g.p.Shared, F: g.fault(false)}
					ops = append(ops, o)
				}
			}
			g.p.Clients = append(g.p.Clients, ops)
		}
		return g.p
	}})

	register(&Profile{ID: "C17", Gen: func(seed uint64) *Program {
		g := newGen("C17", seed)
		g.p.Repos = 0
		for i := g.r.Range(1, 2); i > 0; i-- {
			var l []int
			n := g.r.Range(0, 12)
			if g.r.P(0.15) {
				n = g.r.Range(20, 60)
			}
			if g.r.P(0.01) {
				n = g.r.Range(60, 1100)
				g.p.Yield = false
			}
			for ; n > 0; n-- {
				l = append(l, g.doc())
			}
			g.p.Indices = append(g.p.Indices, l)
		}
		var terms []string
		for i := g.r.Range(1, 4); i > 0; i-- {
			terms = append(terms, g.terms())
		}
		for i := g.r.Range(2, 6); i > 0; i-- {
			var ops []Op
			for k := g.r.Range(1, 4); k > 0; k-- {
				o := Op{K: "isearch", D: g.r.N(len(g.p.Indices)), T: g.r.Pick(terms), E: g.engine(), Scr: g.r.P(0.4), F: g.fault(false)}
				switch g.r.N(6) {
				case 0:
					o.K, o.E = "indexed", ""
					if t := RefTokens(g.p.Pipe, o.T); len(t) > 0 {
						o.T = t[g.r.N(len(t))]
					}
				case 1:
					o.K, o.E, o.T = g.r.Pick([]string{"ilen", "istring"}), "", ""
				}
				ops = append(ops, o)
			}
			g.p.Clients = append(g.p.Clients, ops)
		}
		return g.p
	}, Root: standalone})

	register(&Profile{ID: "C18", Extra: swapped, Gen: func(seed uint64) *Program {
		g := newGen("C18", seed)
		gens := g.r.Range(2, 4)
		var names []string
		for i := 0; i < gens; i++ {
			names = append(names, fmt.Sprintf("gen%d", i))
			g.preload(names[i], g.r.Range(1, 4))
		}
		g.p.Gens = names
		g.p.Setup = append(g.p.Setup, Op{K: "alias", A: "live", B: names[0]})
		var ops []Op
		for i := 1; i < gens; i++ {
			ops = append(ops, Op{K: "alias", A: "live", B: names[i]})
			old := names[i-1]
			switch g.r.N(4) {
			case 0:
				ops = append(ops, Op{K: "drop", A: old})
			case 1:
				ops = append(ops, Op{K: "rename", A: old, B: old + ".old"})
				ops = append(ops, Op{K: g.r.Pick([]string{"unalias", "drop"}), A: "live", B: old + ".old"})
				if o := &ops[len(ops)-1]; o.K == "drop" {
					o.A, o.B = o.B, ""
				}
			default:
				ops = append(ops, Op{K: "unalias", A: "live", B: old})
			}
		}
		for i := range ops {
			if g.r.P(0.2) {
				ops[i].Sleep = int64(g.r.Range(1, 500)) * 1000
			}
		}
		g.p.Clients = append(g.p.Clients, ops)
		g.cfg.engines = []string{"all"}
		for i := g.r.Range(1, 4); i > 0; i-- {
			var rd []Op
			for k := g.r.Range(2, 8); k > 0; k-- {
				o := g.search("live")
				if g.r.P(0.3) {
					o.E = g.r.Pick([]string{"hits", "linear"})
				} else {
					o.T = ""
				}
				rd = append(rd, o)
			}
			g.p.Clients = append(g.p.Clients, rd)
		}
		if g.r.P(0.4) { // unrelated traffic
			g.names = []string{"u1", "u2"}
			g.clients(1, 1, 4, map[string]int{"put": 3, "alias": 2, "unalias": 1, "rename": 1, "drop": 1})
		}
		return g.p
	}})

	register(&Profile{ID: "C19", Extra: isolated, Gen: func(seed uint64) *Program {
		g := newGen("C19", seed)
		g.shared = 0.6
		g.p.Repos = g.r.Range(1, 2)
		groups := g.r.Range(2, 4)
		bare := g.p.Repos == 2 && g.r.P(0.5)
		if bare {
			groups = 2
		}
		base := g.names
		for i := 0; i < groups; i++ {
			rp := i % g.p.Repos
			prefix := fmt.Sprintf("g%d.", i/g.p.Repos) // the same names in both repositories
			if bare {
				prefix = ""
			}
			g.names = nil
			for _, n := range base[:g.r.Range(1, 3)] {
				g.names = append(g.names, prefix+n)
			}
			g.p.Names = append(g.p.Names, g.names...)
			g.p.Groups = append(g.p.Groups, fmt.Sprintf("%d/%s", rp, prefix))
			g.clients(1, 3, 9, g.swarm(mixAll(), "put", "search"))
			c := g.p.Clients[len(g.p.Clients)-1]
			for k := range c {
				c[k].R = rp
			}
		}
		return g.p
	}})
}

// everything is one call of each kind on each name, to find leaked locks.
func everything(g *gen) []Op {
	var out []Op
	n := g.names[0]
	if len(g.names) > 1 && g.r.P(0.5) {
		n = g.names[1]
	}
	put := func(x string) { o := g.put(x); o.F = nil; out = append(out, o) }
	put(n)
	out = append(out,
		Op{K: "alias", A: "post", B: n}, Op{K: "aliases"}, Op{K: "unalias", A: "post", B: n}, Op{K: "search", A: n, T: "", E: "all"},
		Op{K: "rename", A: n, B: n + "'"}, Op{K: "has", A: n}, Op{K: "hasalias", A: n}, Op{K: "list"}, Op{K: "drop", A: n + "'"})
	put(n)
	return out
}

// repeatable: searches of data that nothing changed give the same rows in the same order.
func repeatable(w *world) (string, string) {
	first := map[string]*Rec{}
	var quiet int
	fmt.Sscan(w.p.Gens[0], &quiet)
	for c := 1; c <= quiet && c < len(w.recs); c++ {
		for _, r := range w.recs[c] {
			if r.Op.K != "search" || r.Failed || r.Cut {
				continue
			}
			k := fmt.Sprintf("%q %q %s", r.Op.A, r.Op.T, r.Op.E)
			f, ok := first[k]
			if !ok {
				first[k] = r
				continue
			}
			same := f.Err == r.Err && len(f.Res) == len(r.Res)
			for i := range f.Res {
				same = same && f.Res[i] == r.Res[i] && f.Hits[i] == r.Hits[i]
			}
			if !same {
				return "not-repeatable", fmt.Sprintf("the same search of unchanged data answered differently:\n  %s\n  %s", f.describe(w.p.Docs), r.describe(w.p.Docs))
			}
		}
	}
	for _, l := range w.recs {
		for _, r := range l {
			if r.Op.K == "search" && r.Op.E == "hits" && w.isIndexOnly(r.Op.A) {
				for i := 1; i < len(r.Hits); i++ {
					if r.Hits[i] > r.Hits[i-1] {
						return "hits-order", "hits results are not in descending order of hits: " + r.describe(w.p.Docs)
					}
				}
			}
		}
	}
	return "", ""
}

// isIndexOnly: no alias of that name was ever made.
func (w *world) isIndexOnly(n string) bool {
	for _, l := range w.recs {
		for _, r := range l {
			if r.Op.K == "alias" && r.Op.A == n {
				return false
			}
		}
	}
	return true
}

// unstalled: only the stalled calls may take long.
func unstalled(w *world) (string, string) {
	for c := 1; c < len(w.recs); c++ {
		for _, r := range w.recs[c] {
			if r.Op.F == nil && r.T1-r.T0 > 60e9 {
				return "waited", fmt.Sprintf("%s took %d s of simulated time while only stalled searches were under way", r.describe(w.p.Docs), (r.T1-r.T0)/1e9)
			}
		}
	}
	return "", ""
}

func soundAliases(w *world) (string, string) {
	for _, l := range w.recs {
		for _, r := range l {
			for _, a := range r.Aliases {
				if len(a.Indices) == 0 {
					return "empty-alias", fmt.Sprintf("alias %q stands for no index: %s", a.Alias, r.describe(w.p.Docs))
				}
				if a.Dup {
					return "duplicate-alias-entry", fmt.Sprintf("alias %q stands for an index twice: %s", a.Alias, r.describe(w.p.Docs))
				}
			}
		}
	}
	return "", ""
}

// swapped: readers of the alias see one generation, or two neighbours, completely; never an older one than before,
// nor one that was not live during the search.
func swapped(w *world) (string, string) {
	gens := make([][]int32, len(w.p.Gens))
	for _, r := range w.recs[0] {
		if r.Op.K != "put" {
			continue
		}
		for i, n := range w.p.Gens {
			if r.Op.A == n {
				gens[i] = append(gens[i], int32(r.Op.D))
			}
		}
	}
	number := func(name string) int {
		name = strings.TrimSuffix(name, ".old")
		for i, n := range w.p.Gens {
			if n == name {
				return i
			}
		}
		return -1
	}
	// after a step returned, and before it was called: 2*gen for one generation, 2*gen+1 for gen and gen+1
	type step struct {
		*Rec
		to int
	}
	var steps []step
	for _, r := range w.recs[1] {
		switch i, j := number(r.Op.A), number(r.Op.B); {
		case !r.OK && r.Returned:
		case r.Op.K == "alias" && r.Op.A == "live" && j > 0:
			steps = append(steps, step{r, 2*j - 1})
		case r.Op.K == "drop" && i >= 0:
			steps = append(steps, step{r, 2*i + 2})
		case r.Op.K == "unalias" && r.Op.A == "live" && j >= 0:
			steps = append(steps, step{r, 2*j + 2})
		}
	}
	for c := 1; c < len(w.recs); c++ {
		lo := 0
		for _, r := range w.recs[c] {
			if r.Op.K != "search" || r.Op.A != "live" || r.Failed {
				continue
			}
			if r.Err {
				return "swap-refused", "a search through the alias was refused during a hot swap: " + r.describe(w.p.Docs)
			}
			if r.Cut {
				continue
			}
			ck := newChecker(w.p, Checks{}, []*Rec{r})
			m := ck.match[r.Op.E == "all"][r.Op.T]
			got := append([]int32(nil), r.Res...)
			sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
			best, explained := -1, false
			from, to := lo, 2*len(gens)-2
			for _, s := range steps {
				if s.Returned && s.Ret < r.Call && s.to > from {
					from = s.to
				}
				if s.Call > r.Ret && s.to <= to {
					to = s.to - 1
				}
			}
			for k := 0; k < 2*len(gens)-1; k++ {
				var want []int32
				for _, gn := range gens[k/2 : k/2+1+k%2] {
					for _, d := range gn {
						if m == nil || m[d] {
							want = append(want, d)
						}
					}
				}
				sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
				same := len(want) == len(got)
				for i := range want {
					same = same && want[i] == got[i]
				}
				if same {
					explained = true
					if k >= from && k <= to && best < 0 {
						best = k
					}
				}
			}
			if !explained {
				return "swap-torn", "a search through the alias saw neither the old, nor both, nor the new contents: " + r.describe(w.p.Docs)
			}
			if best < 0 {
				return "swap-backwards", "a search through the alias went back to an older generation, or to that before a step that had returned, or ahead of the steps: " + r.describe(w.p.Docs)
			}
			lo = best
		}
	}
	return "", ""
}

// isolated: every client works on names of its own; each must see exactly what it would see alone.
func isolated(w *world) (string, string) {
	for i, gname := range w.p.Groups {
		if i+1 >= len(w.recs) {
			break
		}
		var rp int
		fmt.Sscanf(gname, "%d/", &rp)
		_, prefix, _ := strings.Cut(gname, "/")
		mine := func(n string) bool { return len(n) >= len(prefix) && n[:len(prefix)] == prefix }
		var recs []*Rec
		for _, c := range [][]*Rec{w.recs[i+1], w.recs[0]} {
			for _, r := range c {
				if r.Op.R != rp || (r.Client < 0 && r.Op.A != "" && !mine(r.Op.A)) {
					continue
				}
				x := *r
				x.Names, x.Aliases = nil, nil
				for _, n := range r.Names {
					if mine(n) {
						x.Names = append(x.Names, n)
					}
				}
				for _, a := range r.Aliases {
					if mine(a.Alias) {
						x.Aliases = append(x.Aliases, a)
					}
				}
				recs = append(recs, &x)
			}
		}
		sort.Slice(recs, func(a, b int) bool { return recs[a].Call < recs[b].Call })
		ck := newChecker(w.p, allChecks, recs)
		if ck.check() == linIllegal {
			return "not-isolated", fmt.Sprintf("client %d works alone on names starting with %q in repository %d, but\n%s", i, prefix, rp, ck.explain())
		}
	}
	return "", ""
}

// standalone: searches of stand-alone indices.
func standalone(w *world, p *Program) {
	w.pl = w.pipeline()
	w.buildStandalone()
	solo := map[string]*Rec{}
	key := func(o *Op) string { return fmt.Sprintf("%s %d %q %s", o.K, o.D, o.T, o.E) }
	look := func() {
		for _, c := range p.Clients {
			for k := range c {
				o := c[k]
				o.F, o.Scr = nil, false
				r := w.do(-1, &o)
				if f, ok := solo[key(&o)]; !ok {
					solo[key(&o)] = r
				} else if !sameRows(f, r) {
					w.bad("index-changed", fmt.Sprintf("alone, before the concurrent part:\n  %s\nnow:\n  %s", f.describe(p.Docs), r.describe(p.Docs)))
				}
			}
		}
	}
	if !p.Fresh {
		look()
	}
	var ts []*simrt.Task
	for i := range p.Clients {
		i := i
		ts = append(ts, simrt.GoClient(fmt.Sprintf("client %d", i), func() { w.client(i, p.Clients[i]) }))
	}
	simrt.Join(ts)
	if p.Fresh { // alone: on the same indices, built anew
		used, pl := w.mi, w.pl
		w.mi, w.pl = nil, w.pipeline()
		w.buildStandalone()
		look()
		w.mi, w.pl = used, pl
	}
	for c := 1; c < len(w.recs); c++ {
		for _, r := range w.recs[c] {
			if r.Failed {
				continue
			}
			if f := solo[key(r.Op)]; !sameRows(f, r) {
				w.bad("not-as-alone", fmt.Sprintf("alone:\n  %s\nbeside other searches:\n  %s", f.describe(p.Docs), r.describe(p.Docs)))
			}
		}
	}
	look()
}

func sameRows(a, b *Rec) bool {
	if a == nil || len(a.Res) != len(b.Res) || len(a.Hits) != len(b.Hits) || a.Bad != b.Bad {
		return false
	}
	for i := range a.Res {
		if a.Res[i] != b.Res[i] {
			return false
		}
	}
	for i := range a.Hits {
		if a.Hits[i] != b.Hits[i] {
			return false
		}
	}
	return true
}
