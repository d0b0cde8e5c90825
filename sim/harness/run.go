package harness

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
	"weak"

	"github.com/sonirico/vago/streams"
	"github.com/sonirico/visigoth"

	"vsim/simrt"
	"vsim/touch"
)

// AliasRow is one row of an alias listing; Indices sorted, Raw as received.
type AliasRow struct {
	Alias   string
	Indices []string
	Dup     bool
}

// Rec is one recorded call.
type Rec struct {
	Op        *Op
	Client    int // -1: main
	N         int // position in its client
	Call, Ret int64
	T0, T1    int64 // simulated time
	Returned  bool
	OK        bool
	Names     []string
	Aliases   []AliasRow
	Err       bool
	Res       []int32 // document numbers in stream order, -1: a row that is no stored document
	Hits      []int32 // hit counts of the rows
	Toks      []string
	Bad       string // a row that can never be right
	Failed    bool   // an injected panic reached the caller
	Fired     bool
	Read      bool // the stream was read to its end
	Cut       bool // the stream was not read to its end
	Engines   int  // engine runs
	Puts      int  // Puts of indices
	Built     int  // indices built
	Text      string
	Shown     []string // what Text says of each index, sorted

	stream streams.ReadStream[visigoth.SearchResult]
	names  []string // received list, kept
	rows   []visigoth.AliasesResultRow
	scr    bool

	counted bool                  // how often components were used matters
	handed  [6]weak.Pointer[byte] // the strings handed over, if that matters
}

func (r *Rec) describe(docs []Doc) string {
	o := r.Op
	var b strings.Builder
	who := "main"
	if r.Client >= 0 {
		who = fmt.Sprintf("client %d", r.Client)
	}
	fmt.Fprintf(&b, "[%d..%d] %s: ", r.Call, r.Ret, who)
	if o.R > 0 {
		fmt.Fprintf(&b, "repo %d: ", o.R)
	}
	b.WriteString(o.String(docs))
	if o.F != nil {
		fmt.Fprintf(&b, " {%s at %s #%d%s}", o.F.Kind, o.F.Comp, o.F.Nth, map[bool]string{true: " and later"}[o.F.All])
	}
	b.WriteString(" -> ")
	switch {
	case !r.Returned:
		b.WriteString("did not return")
	case r.Failed:
		b.WriteString("failed (injected panic)")
	case o.K == "search" && r.Err:
		b.WriteString("error: unknown name")
	case o.K == "search":
		var ids []string
		for _, d := range r.Res {
			if d < 0 {
				ids = append(ids, "?")
			} else {
				ids = append(ids, fmt.Sprintf("#%d", d))
			}
		}
		fmt.Fprintf(&b, "[%s]", strings.Join(ids, " "))
	case o.K == "list":
		fmt.Fprintf(&b, "%q", r.Names)
	case o.K == "aliases":
		for _, a := range r.Aliases {
			fmt.Fprintf(&b, "%q:%q ", a.Alias, a.Indices)
		}
	case o.K == "tok":
		fmt.Fprintf(&b, "%q", r.Toks)
	case o.K == "isearch" || o.K == "indexed" || o.K == "ilen":
		fmt.Fprint(&b, r.Res)
	case o.K == "string" && r.Shown != nil:
		fmt.Fprintf(&b, "%q", r.Shown)
	case o.K == "put" || o.K == "string" || o.K == "istring":
		b.WriteString("returned")
	default:
		fmt.Fprint(&b, r.OK)
	}
	if r.Built > 0 {
		fmt.Fprintf(&b, ", built %d index", r.Built)
	}
	if r.counted && r.Engines+r.Puts > 0 {
		fmt.Fprintf(&b, ", engine runs: %d, index puts: %d", r.Engines, r.Puts)
	}
	if r.Bad != "" {
		b.WriteString(" BAD: " + r.Bad)
	}
	return b.String()
}

// String must not use fmt: its pools would order the accesses of the tasks that use it, and
// so hide races from the race detector.
func (o Op) String(docs []Doc) string {
	q, n := strconv.Quote, strconv.Itoa
	switch o.K {
	case "put":
		return "Put(" + q(o.A) + ", doc #" + n(o.D) + " id=" + q(docs[o.D].ID) + ")"
	case "search":
		return "Search(" + q(o.A) + ", " + q(o.T) + ", " + o.E + ")"
	case "list":
		return "List()"
	case "aliases":
		return "ListAliases()"
	case "string":
		return "String()"
	case "tok":
		return "pipeline.Tokenize(" + q(o.T) + ")"
	case "isearch":
		return "index[" + n(o.D) + "].Search(" + q(o.T) + ", " + o.E + ")"
	case "indexed":
		return "index[" + n(o.D) + "].Indexed(" + q(o.T) + ")"
	case "ilen":
		return "index[" + n(o.D) + "].Len()"
	case "istring":
		return "index[" + n(o.D) + "].String()"
	case "has":
		return "Has(" + q(o.A) + ")"
	case "hasalias":
		return "HasAlias(" + q(o.A) + ")"
	case "drop":
		return "Drop(" + q(o.A) + ")"
	case "alias":
		return "Alias(" + q(o.A) + ", " + q(o.B) + ")"
	case "unalias":
		return "UnAlias(" + q(o.A) + ", " + q(o.B) + ")"
	case "rename":
		return "Rename(" + q(o.A) + ", " + q(o.B) + ")"
	}
	return o.K + "(" + q(o.A+o.T) + ")"
}

// world is one run.
type world struct {
	p         *Program
	repos     []*visigoth.IndexRepo
	pl        *visigoth.TokenizationPipeline
	byRaw     map[string]int // read only during the run
	hits      map[string]int // distinct tokens of terms, -1: repeated; read only
	stalls    [numComps]int64
	panics    [numComps]int64
	badKind   string
	badMsg    string
	recs      [][]*Rec            // per client; [0] is main
	putsLeft  int                 // of the calls that must not starve
	putCalled bool                // one of them is under way
	putN      int                 // how many have been called
	solo      map[string][]string // read only during the run
	late      int64
	scrib     int64
	mi        []*visigoth.MemoryIndex
	puts      []*callCtx        // of the put of each document
	toks      []map[string]bool // of each document; read only
	probes    []string          // some tokens; read only
	built     *simIndex         // the last one
	suffix    string            // of everything handed over in this batch; changed by the main task only
	left      []weak.Pointer[byte]
	swapped   string
	sums      measures
	frozen    bool // what happens from here on does not count as the run's
	frozenAt  uint64
}

func (w *world) bad(kind, msg string) {
	if w.badKind == "" && !simrt.Aborting() {
		w.badKind, w.badMsg = kind, msg
		simrt.FailedRun("check:"+kind, msg)
	}
}

func docTokens(p *Program) []map[string]bool {
	toks := make([]map[string]bool, len(p.Docs))
	for i, d := range p.Docs {
		toks[i] = map[string]bool{}
		for _, t := range RefTokens(p.Pipe, d.Stmt) {
			toks[i][t] = true
		}
	}
	return toks
}

func newWorld(p *Program) *world {
	w := &world{p: p, sums: measures{h: 1469598103934665603}, byRaw: map[string]int{}, hits: map[string]int{}}
	for i, d := range p.Docs {
		w.byRaw[d.Raw] = i
	}
	w.recs = make([][]*Rec, len(p.Clients)+1)
	w.puts = make([]*callCtx, len(p.Docs))
	for _, c := range append([][]Op{p.Setup, p.Post}, p.Clients...) {
		for i := range c {
			w.termHits(c[i].T)
		}
	}
	w.termHits("")
	if p.Probe {
		w.toks = docTokens(p)
		for i := range p.Docs {
			for _, t := range RefTokens(p.Pipe, p.Docs[i].Stmt) {
				if len(w.probes) < 6 && !has1(w.probes, t) {
					w.probes = append(w.probes, t)
				}
			}
		}
	}
	return w
}

// termHits is called by the main task only, while no other runs.
func (w *world) termHits(t string) {
	if _, ok := w.hits[t]; ok {
		return
	}
	toks := RefTokens(w.p.Pipe, t)
	set := map[string]bool{}
	for _, x := range toks {
		set[x] = true
	}
	w.hits[t] = len(toks)
	if len(set) != len(toks) {
		w.hits[t] = -1
	}
}

func (w *world) open() {
	w.pl = w.pipeline()
	b := w.builder(w.pl)
	for i := 0; i < w.p.Repos; i++ {
		if i > 0 && !w.p.OneBld {
			b = w.builder(w.pl)
		}
		w.repos = append(w.repos, visigoth.NewIndexRepo(b))
	}
}

func (d Doc) request() visigoth.DocRequest {
	switch d.Ctor {
	case 1:
		return visigoth.NewDocRequestWith(d.ID, d.Raw, d.Stmt)
	case 2:
		return visigoth.NewDocRequestWithMime(d.ID, d.Raw, visigoth.MimeJSON)
	}
	return visigoth.NewDocRequest(d.ID, d.Raw)
}

// do performs one call and records it.
func (w *world) do(client int, o *Op) *Rec {
	r := &Rec{Op: o, Client: client, N: len(w.recs[client+1]), counted: w.p.Uses}
	w.recs[client+1] = append(w.recs[client+1], r)
	if o.Sleep > 0 {
		simrt.Sleep(time.Duration(o.Sleep))
	}
	cc := w.newCallCtx(o)
	if o.K == "put" {
		w.puts[o.D] = cc
	}
	simrt.SetCtx(cc)
	if client >= 0 {
		simrt.Point("call")
	}
	if client >= 0 && w.guarded(o) {
		w.putCalled = true
		w.putN++
	}
	r.Call, r.T0 = simrt.Seq(), simrt.Now()
	simrt.Note("calls " + o.String(w.p.Docs))
	w.invoke(r, cc)
	if simrt.Aborting() {
		runtime.Goexit()
	}
	r.Ret, r.T1 = simrt.Seq(), simrt.Now()
	r.Returned, cc.ended = true, true
	r.Engines, r.Puts = cc.engines, cc.puts
	simrt.Progress()
	r.Fired = cc.fired && o.F.Kind == "panic"
	simrt.Note("returned from " + o.String(w.p.Docs))
	simrt.SetCtx(nil)
	if o.Part > 0 && r.stream != nil {
		for k := 1; k < o.Part && w.readRow(r); k++ {
		}
		if !r.Read {
			r.Cut = true
			w.closeStream(r)
		}
		r.stream = nil
	}
	if r.stream != nil && o.Late == 0 {
		w.readAll(r)
	}
	if o.Scr {
		w.scribble(r)
	}
	return r
}

func (w *world) invoke(r *Rec, cc *callCtx) {
	o := r.Op
	var repo *visigoth.IndexRepo
	if len(w.repos) > 0 {
		repo = w.repos[o.R]
	}
	defer func() {
		if simrt.Aborting() {
			return
		}
		if x := recover(); x != nil {
			if cc.fired && o.F.Kind == "panic" {
				r.Failed = true
				return
			}
			simrt.FailedRun("panic", fmt.Sprintf("%s panicked: %v\n%s", o.String(w.p.Docs), x, simrt.TrimStack(debug.Stack())))
		}
	}()
	a, b, t := o.A, o.B, o.T
	if w.suffix != "" {
		a, b = w.fresh(r, a, 0), w.fresh(r, b, 1)
		if o.K == "search" {
			t = w.own(r, t, 2)
		}
	}
	switch o.K {
	case "put":
		repo.Put(a, w.request(r, o.D))
	case "search":
		s, err := repo.Search(a, t, w.engine(o.E, cc))
		switch {
		case err != nil && cc.fired && o.F.Kind == "panic":
			r.Failed = true
		case err != nil:
			r.Err = true
		case s == nil:
			w.bad("nil-stream", o.String(w.p.Docs)+" returned neither a stream nor an error")
		default:
			r.stream = s
		}
	case "list":
		l := repo.List()
		r.names = l
		r.Names = touch.Strings(l)
		sort.Strings(r.Names)
	case "aliases":
		l := repo.ListAliases()
		r.rows = l.Aliases
		r.Aliases = readRows(l.Aliases)
	case "has":
		r.OK = repo.Has(a)
	case "hasalias":
		r.OK = repo.HasAlias(a)
	case "alias":
		r.OK = repo.Alias(a, b)
	case "unalias":
		r.OK = repo.UnAlias(a, b)
	case "rename":
		r.OK = repo.Rename(a, b)
	case "drop":
		r.OK = repo.Drop(a)
	case "string":
		r.Text = repo.String()
	case "tok": // the shared pipeline
		t := w.pl.Tokenize(o.T)
		r.Toks = touch.Strings(t)
		if !w.p.Fresh {
			w.asAlone(r)
		}
		if o.Scr {
			touch.ScribbleStrings(t)
			w.scrib++
		}
	case "isearch": // a stand-alone index
		l := w.mi[o.D].Search(o.T, w.engine(o.E, cc))
		for _, x := range touch.Results(l) {
			w.row(r, x)
		}
		if o.Scr {
			touch.ScribbleResults(l)
			w.scrib++
		}
	case "indexed":
		l := w.mi[o.D].Indexed(o.T)
		for _, x := range touch.Ints(l) {
			r.Res = append(r.Res, int32(x))
		}
		if o.Scr {
			touch.ScribbleInts(l)
			w.scrib++
		}
	case "ilen":
		r.Res = []int32{int32(w.mi[o.D].Len())}
	case "istring":
		_ = w.mi[o.D].String()
	default:
		panic("harness: unknown call " + o.K)
	}
}

// asAlone compares the tokens of a call with those of a pipeline used alone.
func (w *world) asAlone(r *Rec) {
	if want := w.solo[r.Op.T]; !equal(r.Toks, want) {
		w.bad("tokens", fmt.Sprintf("the shared pipeline gave %q for %q; used alone it gives %q", r.Toks, r.Op.T, want))
	}
}

func readRows(l []visigoth.AliasesResultRow) []AliasRow {
	rows := touch.Rows(l)
	out := make([]AliasRow, len(rows))
	for i, x := range rows {
		idx := x.Indices
		sort.Strings(idx)
		a := AliasRow{Alias: x.Alias, Indices: idx}
		for j := 1; j < len(idx); j++ {
			a.Dup = a.Dup || idx[j] == idx[j-1]
		}
		out[i] = a
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Alias < out[j].Alias })
	return out
}

// row records one row of a stream.
func (w *world) row(r *Rec, x visigoth.SearchResult) {
	o := r.Op
	r.Hits = append(r.Hits, int32(x.GetHits()))
	n, ok := w.byRaw[strings.TrimSuffix(x.Doc().Raw(), w.suffix)]
	if !ok {
		r.Res = append(r.Res, -1)
		r.Bad = fmt.Sprintf("a row with content %q that no call stored", x.Doc().Raw())
		return
	}
	r.Res = append(r.Res, int32(n))
	if id := w.p.Docs[n].ID; x.Doc().ID() != id {
		r.Bad = fmt.Sprintf("document #%d came back with id %q instead of %q", n, x.Doc().ID(), id)
	}
	h := w.hits[o.T]
	switch o.E {
	case "hits", "linear":
		if h >= 0 && x.GetHits() != h {
			r.Bad = fmt.Sprintf("document #%d came back with %d hits for %d terms", n, x.GetHits(), h)
		}
	}
}

// readRow reads one row; false at the end of the stream.
func (w *world) readRow(r *Rec) bool {
	if r.Read || r.stream == nil {
		return false
	}
	ok := false
	func() {
		defer w.noPanic(r, "reading the stream of ")
		if r.stream.Next() {
			ok = true
			x := r.stream.Data()
			w.row(r, x)
			if y := r.stream.Data(); y.Doc() != x.Doc() || y.GetHits() != x.GetHits() {
				r.Bad = "a row changed between two looks at it"
			}
		} else {
			r.Read = true
			if err := r.stream.Err(); err != nil {
				r.Bad = "the stream ended with error " + err.Error()
			}
			if r.stream.Next() {
				r.Bad = "the stream went on after its end"
			}
			w.closeStream(r)
		}
	}()
	if len(r.Res) > 100000 {
		w.bad("endless-stream", "the stream of "+r.Op.String(w.p.Docs)+" does not end")
	}
	return ok
}

// closeStream closes a stream, maybe twice, as the iterators of the streams package do.
func (w *world) closeStream(r *Rec) {
	for k := r.Op.Close; k > 0; k-- {
		func() {
			defer w.noPanic(r, "closing the stream of ")
			if err := r.stream.Close(); err != nil && k == r.Op.Close {
				r.Bad = "closing the stream failed: " + err.Error()
			}
		}()
	}
}

func (w *world) noPanic(r *Rec, what string) {
	if simrt.Aborting() {
		return
	}
	if x := recover(); x != nil {
		simrt.FailedRun("panic", fmt.Sprintf("%s%s panicked: %v\n%s", what, r.Op.String(w.p.Docs), x, simrt.TrimStack(debug.Stack())))
	}
}

func (w *world) readAll(r *Rec) {
	for w.readRow(r) {
	}
}

// scribble changes a received listing, as its owner may.
func (w *world) scribble(r *Rec) {
	if r.names == nil && r.rows == nil {
		return
	}
	w.scrib++
	r.scr = true
	if r.names != nil {
		touch.ScribbleStrings(r.names)
	}
	if a, changed := touch.ScribbleRows(r.rows); changed {
		w.bad("listing-shared", "the indices received for alias "+strconv.Quote(a)+" changed when the caller changed those received for another alias")
	}
}

// client runs the calls of one client.
func (w *world) client(i int, ops []Op) {
	var pend []*Rec
	for k := range ops {
		o := &ops[k]
		if o.Until {
			w.until(i, o)
			continue
		}
		r := w.do(i, o)
		if w.guarded(o) {
			w.putsLeft--
			w.putCalled = false
		}
		n := 0
		for _, l := range pend {
			for c := 0; c < l.Op.Late; c++ {
				if !w.readRow(l) {
					break
				}
				w.late++
			}
			if !l.Read {
				pend[n] = l
				n++
			}
		}
		pend = pend[:n]
		if r.stream != nil && o.Late != 0 {
			pend = append(pend, r)
		}
	}
	for _, l := range pend {
		if l.Op.Late > 0 {
			simrt.Point("read")
			for w.readRow(l) {
				w.late++
				simrt.Point("read")
			}
		}
	}
}

// guarded says that a call must not starve among the calls that are repeated meanwhile.
func (w *world) guarded(o *Op) bool { return w.p.Fair && !o.Until }

// until repeats a call as long as guarded calls are under way.
func (w *world) until(i int, o *Op) {
	n, of := 0, 0
	for all := 0; w.putsLeft > 0 && all < 5000; all++ {
		if of != w.putN {
			n, of = 0, w.putN
		}
		called := w.putCalled
		w.do(i, o)
		w.recs[i+1] = w.recs[i+1][:len(w.recs[i+1])-1] // not kept
		if called && w.putCalled && of == w.putN {
			n++
		}
		if (n > 600 || o.K == "put" && n > 300) && w.putsLeft > 0 {
			what, kind := "a put", "put-starved"
			if o.K == "put" {
				what, kind = "a call that only reads", "reader-starved"
			}
			w.bad(kind, fmt.Sprintf("%s did not return although %d calls of one client, like %s, started after it was called and ended meanwhile", what, n, o.String(w.p.Docs)))
			return
		}
	}
}

// finish reads the streams that were kept to the end, and looks at the listings again.
func (w *world) finish() {
	for _, l := range w.recs {
		for _, r := range l {
			if r.stream != nil && !r.Read {
				for w.readRow(r) {
					w.late++
				}
			}
			if r.Returned && !r.scr && r.Op.K == "list" && r.names != nil {
				now := touch.Strings(r.names)
				sort.Strings(now)
				if !equal(now, r.Names) {
					w.bad("listing-changed", fmt.Sprintf("the list received from List() as %q has become %q", r.Names, now))
				}
			}
			if r.Returned && !r.scr && r.Op.K == "aliases" {
				now := readRows(r.rows)
				for i := range now {
					if i >= len(r.Aliases) || now[i].Alias != r.Aliases[i].Alias || !equal(now[i].Indices, r.Aliases[i].Indices) {
						w.bad("listing-changed", fmt.Sprintf("the list received from ListAliases() as %v has become %v", r.Aliases, now))
						break
					}
				}
			}
		}
	}
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// audit looks at everything, in the main task, after all clients ended.
func (w *world) audit() {
	rng := NewRng(w.p.Seed ^ 0xa0d17)
	for rp := range w.repos {
		w.do(-1, &Op{K: "list", R: rp})
		w.do(-1, &Op{K: "aliases", R: rp})
		names := map[string]bool{}
		for _, n := range w.p.Names {
			names[n] = true
		}
		for _, c := range w.recs {
			for _, r := range c {
				if r.Op.R != rp {
					continue
				}
				for _, n := range r.Names {
					names[n] = true
				}
				for _, a := range r.Aliases {
					names[a.Alias] = true
				}
			}
		}
		var l []string
		for n := range names {
			l = append(l, n)
		}
		sort.Strings(l)
		for _, n := range l {
			w.do(-1, &Op{K: "search", R: rp, A: n, E: "all"})
			if len(w.p.Docs) > 0 {
				f := strings.Fields(w.p.Docs[rng.N(len(w.p.Docs))].Stmt)
				o := &Op{K: "search", R: rp, A: n, E: []string{"hits", "linear"}[rng.N(2)]}
				if len(f) > 0 {
					o.T = f[rng.N(len(f))]
				}
				w.termHits(o.T)
				w.do(-1, o)
			}
		}
	}
}

// history returns all recorded calls of a repository, ordered by start.
func (w *world) history(repo int) []*Rec {
	var out []*Rec
	for _, l := range w.recs {
		for _, r := range l {
			if r.Op.R == repo && r.Returned {
				out = append(out, r)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Call < out[j].Call })
	return out
}
