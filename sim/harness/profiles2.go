package harness

import (
	"fmt"
	"strconv"

	"github.com/sonirico/visigoth"

	"vsim/simrt"
	"vsim/touch"
)

func has1(l []string, x string) bool {
	for _, v := range l {
		if v == x {
			return true
		}
	}
	return false
}

// probe is what a search engine saw of its index when it was called.
type probe struct {
	w      *world
	c      *callCtx
	x      visigoth.Indexer
	tokens []string
	keys   []string
	docs   []int
	lists  [][]int
}

func (pr *probe) look() (docs []int, lists [][]int, wrong string) {
	w := pr.w
	n := pr.x.Len()
	for i := 0; i < n; i++ {
		d := pr.x.Document(i)
		k, ok := w.byRaw[d.Raw()]
		if !ok || w.p.Docs[k].ID != d.ID() {
			return nil, nil, "document " + strconv.Itoa(i) + " of the index is id " + strconv.Quote(d.ID()) + " content " + strconv.Quote(d.Raw()) + ", which no call stored"
		}
		docs = append(docs, k)
	}
	for _, key := range pr.keys {
		l := touch.Ints(pr.x.Indexed(key))
		lists = append(lists, l)
		at := 0
		for i, d := range docs {
			listed := at < len(l) && l[at] == i
			if listed {
				at++
			}
			if listed != w.toks[d][key] {
				return nil, nil, "the documents listed for " + strconv.Quote(key) + " are " + fmt.Sprint(l) + " of " + strconv.Itoa(n) + ", which is wrong for document " + strconv.Itoa(i)
			}
		}
		if at != len(l) {
			return nil, nil, "the documents listed for " + strconv.Quote(key) + " are " + fmt.Sprint(l) + " of " + strconv.Itoa(n)
		}
	}
	return docs, lists, ""
}

// probe examines the index a search engine was given.
func (w *world) probe(c *callCtx, tokens []string, x visigoth.Indexer) *probe {
	pr := &probe{w: w, c: c, x: x, tokens: touch.Strings(tokens), keys: append([]string(nil), w.probes...)}
	if want := RefTokens(w.p.Pipe, c.o.T); !equal(want, pr.tokens) {
		w.bad("engine-tokens", fmt.Sprintf("%s: the search engine was given the tokens %q, not %q", c.o.String(w.p.Docs), pr.tokens, want))
	}
	for _, t := range pr.tokens {
		if !has1(pr.keys, t) {
			pr.keys = append(pr.keys, t)
		}
	}
	var wrong string
	if pr.docs, pr.lists, wrong = pr.look(); wrong != "" {
		w.bad("engine-view", c.o.String(w.p.Docs)+": the search engine was given an inconsistent index: "+wrong)
	}
	return pr
}

func (pr *probe) again(when string) {
	w := pr.w
	docs, lists, wrong := pr.look()
	switch {
	case wrong != "":
	case !sameInts(docs, pr.docs):
		wrong = fmt.Sprintf("the index held documents %v, and now holds %v", pr.docs, docs)
	default:
		for i := range lists {
			if !sameInts(lists[i], pr.lists[i]) {
				wrong = fmt.Sprintf("the documents listed for %q were %v, and are now %v", pr.keys[i], pr.lists[i], lists[i])
			}
		}
	}
	if wrong != "" {
		w.bad("engine-view", pr.c.o.String(w.p.Docs)+": the index changed under the search engine ("+when+"): "+wrong)
	}
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// leftovers makes the clients' calls again and again; the number of goroutines must not follow.
func leftovers(w *world, p *Program) {
	w.open()
	for i := range p.Setup {
		w.do(-1, &p.Setup[i])
	}
	var counts []int
	calls, still := 0, 0
	for b := 0; b < 60 && still < p.Batches; b++ {
		var ts []*simrt.Task
		calls = 0
		for i := range p.Clients {
			i := i
			calls += len(p.Clients[i])
			ts = append(ts, simrt.GoClient(fmt.Sprintf("client %d.%d", i, b), func() { w.client(i, p.Clients[i]) }))
		}
		simrt.Join(ts)
		simrt.Sleep(3 * 3600e9) // whoever waits for a while has stopped waiting
		now := simrt.NumGoroutine()
		if n := len(counts); n > 0 && now > counts[n-1] {
			still = 0
		} else {
			still++
		}
		counts = append(counts, now)
		if b > 2 && now-counts[1] > 130 { // more than any pool needs
			w.bad("goroutines-left", fmt.Sprintf("%d calls were made, again and again; after each time, when all had returned, this many goroutines were left: %v", calls, counts))
			return
		}
	}
}

func init() {
	register(&Profile{ID: "C23", Lin: true, Checks: Checks{Search: true}, Gen: func(seed uint64) *Program {
		g := newGen("C23", seed)
		g.p.Probe = true
		g.someNames(2, 3)
		for _, n := range g.names {
			if g.r.P(0.8) {
				g.preload(n, g.r.Range(0, 5))
			}
		}
		if g.r.P(0.6) {
			for _, n := range g.names[1:] {
				g.p.Setup = append(g.p.Setup, Op{K: "alias", A: "al", B: n})
			}
			g.names = append(g.names, "al", "al")
		}
		g.p.Names = append([]string(nil), g.names...)
		g.bulk(0.05, g.name())
		n, k := g.size()
		g.clients(n, 1, k+1, g.swarm(map[string]int{"search": 12, "put": 12, "drop": 3, "rename": 3, "alias": 2, "unalias": 2}, "search", "put"))
		for i := range g.p.Clients {
			for j := range g.p.Clients[i] {
				if o := &g.p.Clients[i][j]; o.K == "search" && o.F == nil && g.r.P(0.4) {
					o.F = &Fault{Comp: g.r.Pick([]string{"engine-after", "indexer"}), Nth: 1, Kind: "stall", Dur: int64(g.r.Range(1, 2000)) * 1000}
				}
			}
		}
		return g.p
	}})

	register(&Profile{ID: "C24", Gen: func(seed uint64) *Program {
		g := newGen("C24", seed)
		g.cfg.panics = true
		g.cfg.faults = []float64{0, 0.1, 0.4}[g.r.N(3)]
		g.cfg.late = 0
		g.p.Yield = false
		g.p.Batches = 3
		g.longDocs = 0
		g.someNames(2, 3)
		for _, n := range g.names {
			g.preload(n, g.r.Range(1, 3))
		}
		idx := g.names
		if g.r.P(0.7) {
			for _, n := range idx {
				g.p.Setup = append(g.p.Setup, Op{K: "alias", A: "al", B: n})
			}
			g.names = append([]string{"al", "al", "al"}, idx...)
		}
		if g.r.P(0.5) {
			g.names = append(g.names, "unknown")
		}
		mix := g.swarm(map[string]int{"search": 12, "put": 1, "list": 2, "aliases": 2, "has": 2, "hasalias": 2, "alias": 3, "unalias": 3, "rename": 2, "drop": 1, "string": 1}, "search")
		read := g.r.N(3)
		x := NewRng(Mix(seed, 0xfa11))
		for c := g.r.Range(1, 3); c > 0; c-- {
			var ops []Op
			few := g.r.Range(1, 4)
			for k := 0; k < few; k++ {
				o := g.op(mix)
				if o.K == "drop" || o.K == "rename" || o.K == "unalias" {
					o.A = "nothing" // refused: the workload must stay the same
				}
				if o.K == "put" && o.A == "unknown" {
					o.A = idx[0]
				}
				o.Scr = false
				if o.K == "search" && read > 0 {
					o.Part = g.r.Range(1, 3)
				}
				if k == 0 && x.P(0.2) { // puts that fail, again and again
					o = g.put(g.name())
					if o.A == "unknown" {
						o.A = idx[0]
					}
					o.F = &Fault{Comp: x.Pick([]string{"tokenizer", "index-put", "index-put-after"}), Nth: x.Range(1, 3), Kind: "panic", All: x.P(0.3)}
				}
				ops = append(ops, o)
			}
			if g.r.P(0.5) { // an index that comes and goes
				tmp, onto := fmt.Sprintf("tmp%d", c), fmt.Sprintf("onto%d", c)
				o := g.put(tmp)
				o.F = nil
				ops = append(ops, o)
				switch g.r.N(4) {
				case 0:
					ops = append(ops, Op{K: "drop", A: tmp})
				case 1:
					ops = append(ops, Op{K: "rename", A: tmp, B: onto})
				case 2:
					ops = append(ops, Op{K: "alias", A: "t" + onto, B: tmp}, Op{K: "rename", A: tmp, B: onto})
				case 3:
					ops = append(ops, Op{K: "alias", A: "t" + onto, B: tmp}, g.search("t"+onto), Op{K: "drop", A: tmp})
				}
				cycle := append([]Op(nil), ops[few:]...)
				for n := g.r.Range(1, 8); n > 1; n-- {
					ops = append(ops, cycle...)
				}
			}
			for k := 16/few + 1; k > 1; k-- {
				for _, o := range ops[:few] {
					if o.K == "put" && (o.F == nil || o.F.Kind != "panic") { // only once per batch: the documents add up
						continue
					}
					ops = append(ops, o)
				}
			}
			g.p.Clients = append(g.p.Clients, ops)
		}
		return g.p
	}, Root: leftovers})

	register(&Profile{ID: "C25", Gen: func(seed uint64) *Program {
		mix := mixAll()
		mix["string"] = 3
		mix["search"] = 10
		mix["put"] = 12
		g := general("C25", seed, mix, "put")
		g.p.Wrap, g.p.Excl = true, true
		if g.r.P(0.5) {
			l := g.fanout("wide", g.width(2, 5))
			g.names = append(g.names, "wide", "wide", l[0])
			g.clients(1, 1, 4, g.swarm(mix, "put"))
		}
		if g.r.P(0.6) {
			g.cfg.panics, g.cfg.faults = true, []float64{0.15, 0.4}[g.r.N(2)]
			for i := range g.p.Clients {
				for j := range g.p.Clients[i] {
					if o := &g.p.Clients[i][j]; o.F == nil && (o.K == "put" || o.K == "search") {
						o.F = g.fault(o.K == "put")
					}
				}
			}
		}
		return g.p
	}})

	register(&Profile{ID: "C26", Lin: true, Checks: Checks{Uses: true, Search: true}, Gen: func(seed uint64) *Program {
		w := mixAll()
		w["put"], w["drop"] = 14, 5
		g := general("C26", seed, w, "put")
		g.p.Wrap, g.p.Uses = true, true
		if g.r.P(0.3) { // first puts of one name at once
			g.names = []string{"new", "new", g.names[0]}
			g.p.Names = append(g.p.Names, "new")
			g.clients(g.r.Range(1, 3), 1, 3, map[string]int{"put": 10, "search": 4, "drop": 3, "rename": 2, "alias": 2, "has": 2})
		}
		if g.r.P(0.4) {
			l := g.fanout("wide", g.width(2, 5))
			g.names = append(g.names, "wide", "wide", l[0])
			g.clients(1, 1, 4, g.swarm(w, "put"))
		}
		if g.r.P(0.5) {
			g.cfg.panics, g.cfg.faults = true, []float64{0.15, 0.4}[g.r.N(2)]
			for i := range g.p.Clients {
				for j := range g.p.Clients[i] {
					if o := &g.p.Clients[i][j]; o.F == nil && (o.K == "put" || o.K == "search") {
						o.F = g.fault(o.K == "put")
					}
				}
			}
		}
		return g.p
	}})

	register(&Profile{ID: "C27", Lin: true, Checks: Checks{Text: true, Order: true, List: true}, Gen: func(seed uint64) *Program {
		w := mixAll()
		w["string"], w["put"], w["search"], w["list"] = 20, 14, 2, 1
		g := general("C27", seed, w, "put", "string")
		if g.r.P(0.4) {
			l := g.fanout("wide", g.width(2, 8))
			g.names = append(g.names, "wide", "wide", l[0])
			g.clients(g.r.Range(1, 2), 1, 4, g.swarm(w, "put", "string"))
		}
		for i := g.r.Range(1, 2); i > 0; i-- {
			g.p.Post = append(g.p.Post, Op{K: "string"})
		}
		return g.p
	}})
}
