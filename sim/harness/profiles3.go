package harness

import (
	"fmt"
	"runtime"
	"strings"
	"unsafe"
	"weak"

	"github.com/sonirico/visigoth"

	"vsim/simrt"
)

// own makes a string of this batch's own and remembers it, weakly.
func (w *world) own(r *Rec, s string, slot int) string {
	if s == "" {
		s = strings.Clone(w.suffix)
	} else {
		s += w.suffix
	}
	r.handed[slot] = weak.Make(unsafe.StringData(s))
	return s
}

// fresh does so for names, but not for those that stay.
func (w *world) fresh(r *Rec, name string, slot int) string {
	if name == "" || strings.HasPrefix(name, "keep") {
		return name
	}
	return w.own(r, name, slot)
}

// request makes the document of a put.
func (w *world) request(r *Rec, n int) visigoth.DocRequest {
	d := w.p.Docs[n]
	if w.suffix != "" {
		same := d.Raw == d.Stmt
		d.ID, d.Raw = w.own(r, d.ID, 3), w.own(r, d.Raw, 4)
		if same {
			d.Stmt = d.Raw
		} else {
			d.Stmt = w.own(r, d.Stmt, 5)
		}
	}
	return d.request()
}

// kept counts the strings handed over in all batches that can still be reached, and the bytes in use.
func (w *world) kept() (n, bytes int) {
	own := simrt.Forget()
	runtime.GC()
	simrt.Finalize()
	runtime.GC()
	var left []weak.Pointer[byte]
	for _, p := range w.left {
		if p.Value() != nil {
			left = append(left, p)
		}
	}
	w.left = left
	n = len(left)
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return n, int(ms.HeapAlloc) - own - 24*n
}

// tidy removes all that the clients may have left in the repository.
func (w *world) tidy() {
	repo := w.repos[0]
	for _, n := range repo.List() {
		if !strings.HasPrefix(n, "keep") && n != w.swapped {
			repo.Drop(n)
		}
	}
	for _, a := range repo.ListAliases().Aliases {
		if !strings.HasPrefix(a.Alias, "keep") {
			repo.UnAlias(a.Alias, "")
		}
	}
}

// swap puts a new index in the place of one of an earlier batch, which an alias or a name stands for all the time.
func (w *world) swap() {
	if w.p.Swap == 0 || len(w.p.Docs) == 0 {
		return
	}
	repo, r := w.repos[0], &Rec{Op: &Op{}}
	name := w.own(r, "swapped", 0)
	repo.Put(name, w.request(r, len(w.suffix)%len(w.p.Docs)))
	w.left = append(w.left, r.handed[:]...)
	old := w.swapped
	switch w.p.Swap {
	case 1, 2:
		repo.Alias("keepswap", name)
		w.swapped = name
		if old == "" {
			break
		}
		if w.p.Swap == 1 {
			repo.UnAlias("keepswap", old)
		}
		repo.Drop(old)
	case 3:
		repo.Rename(name, "keepswap")
	case 4:
		if old != "" {
			repo.Rename(name, old)
			break
		}
		repo.Alias("keepswap", name)
		w.swapped = name
	case 5: // a name that changes all the time
		if old != "" {
			repo.Drop(name)
			repo.Rename(old, name)
		} else {
			repo.Alias("keepswap", name)
		}
		w.swapped = name
	}
}

// letters makes a word of a number.
func letters(n int) string {
	b := []byte("wordaaaa")
	for i := len(b) - 1; n > 0; i-- {
		b[i] = "bcdfghjklmnprtvz"[n%16]
		n /= 16
	}
	return string(b)
}

const mostKept = 1500

// memory makes the clients' calls again and again and removes what they stored; what stays in memory must not follow.
func memory(w *world, p *Program) {
	w.open()
	for i := range p.Setup {
		w.do(-1, &p.Setup[i])
	}
	if simrt.Aborting() {
		return
	}
	var counts []int
	var sizes []int
	b := 0
	for at := p.Batches; ; at *= 2 {
		for ; b < at; b++ {
			w.suffix = fmt.Sprintf(" %07d %s of so many", b, letters(b))
			for i := range w.recs {
				w.recs[i] = nil
			}
			var ts []*simrt.Task
			for i := range p.Clients {
				i := i
				ts = append(ts, simrt.GoClient(fmt.Sprintf("client %d.%d", i, b), func() { w.client(i, p.Clients[i]) }))
			}
			simrt.Join(ts)
			w.swap()
			w.tidy()
			simrt.Sleep(5e9) // whoever waits for a while has stopped waiting
			w.sum()
			if b%32 == 31 {
				simrt.Finalize()
			}
			for i := range w.recs {
				for _, r := range w.recs[i] {
					for _, h := range r.handed {
						if h.Value() != nil {
							w.left = append(w.left, h)
						}
					}
				}
			}
		}
		simrt.Sleep(3600e9)
		for i := range w.recs {
			w.recs[i] = nil
		}
		w.suffix = " none of so many"
		for i := range w.puts {
			w.puts[i] = nil
		}
		n, bytes := w.kept()
		counts, sizes = append(counts, n), append(sizes, bytes)
		if len(counts) == 1 {
			w.frozen, w.frozenAt = true, w.sums.h // how long it goes on may depend on the collector
			continue
		}
		last := len(counts) - 1
		more := bytes - sizes[last-1]
		if n <= counts[last-1] && more < 3000+6*b {
			return
		}
		if n-counts[0] > mostKept {
			w.bad("memory-kept", fmt.Sprintf("the clients' calls were made %d times, and each time all they had stored was removed; afterwards, %d strings of earlier calls were still kept in memory (after 1/2, 1/4, ... of the times: %v)", b, n, rev(counts[:last])))
			return
		}
		if b > 2000 && last > 1 {
			if before := sizes[last-1] - sizes[last-2]; more > 24000 && before > 8000 {
				w.bad("memory-kept", fmt.Sprintf("the clients' calls were made %d times, and each time all they had stored was removed; afterwards, %d more bytes were in use than after half of the times (and then, %d more than after a quarter)", b, more, before))
				return
			}
		}
		if b > 4000 {
			return
		}
	}
}

func rev(l []int) []int {
	var out []int
	for i := len(l) - 1; i >= 0; i-- {
		out = append(out, l[i])
	}
	return out
}

func init() {
	register(&Profile{ID: "C28", Gen: func(seed uint64) *Program {
		g := newGen("C28", seed)
		g.p.Shared = false
		g.longDocs = 0
		g.cfg.panics = true
		g.cfg.faults = []float64{0, 0.1, 0.4}[g.r.N(3)]
		g.p.Yield = g.r.P(0.3)
		g.p.Batches = []int{2, 2, 2, 3, 6, 20}[g.r.N(6)]
		if g.r.P(0.03) {
			g.p.Batches = 256
		}
		if g.r.P(0.5) {
			g.p.Swap = g.r.Range(1, 5)
		}
		g.preload("keep", g.r.Range(1, 5))
		kept := []string{"keep"}
		if g.r.P(0.5) {
			g.preload("keep2", g.r.Range(1, 3))
			kept = append(kept, "keep2")
			g.p.Setup = append(g.p.Setup, Op{K: "alias", A: "keepal", B: "keep"}, Op{K: "alias", A: "keepal", B: "keep2"})
		}
		idx := []string{"t0", "t1", "t2", "t3"}[:g.r.Range(1, 4)]
		mix := g.swarm(map[string]int{"search": 10, "put": 8, "list": 1, "aliases": 1, "has": 1, "hasalias": 1, "alias": 4, "unalias": 3, "unaliasall": 1, "rename": 4, "drop": 4, "string": 1})
		for c := g.r.Range(1, 4); c > 0; c-- {
			var ops []Op
			for k := g.r.Range(1, 8); k > 0; k-- {
				g.names = append([]string{"ta", "tb"}, idx...)
				o := g.op(mix)
				switch o.K {
				case "search", "has", "hasalias":
					if g.r.P(0.4) {
						o.A = g.r.Pick([]string{"keep", "keep2", "keepal", "keepswap", "ka", "none"})
					}
				case "alias", "unalias":
					if g.r.P(0.3) {
						o.A, o.B = "ka", g.r.Pick(kept)
					}
				}
				if o.K == "search" && g.r.P(0.2) {
					o.Part = g.r.Range(1, 3)
				}
				ops = append(ops, o)
			}
			g.p.Clients = append(g.p.Clients, ops)
		}
		return g.p
	}, Root: memory})
}
