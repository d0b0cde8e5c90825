package harness

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/sonirico/vago/slices"
	"github.com/sonirico/visigoth"

	"vsim/simrt"
	"vsim/touch"
)

// Components with fault points.
const (
	cTokenizer = iota
	cFilter
	cEngine
	cEngineAfter
	cIndexer
	cIndexPut
	cIndexPutAfter
	cIndexSearch
	cBuilder
	cIndexString
	numComps
)

var compNames = [numComps]string{"tokenizer", "filter", "engine", "engine-after", "indexer", "index-put", "index-put-after", "index-search", "builder", "index-string"}

// callCtx is the context of one call, inherited by the goroutines it starts. A goroutine may
// also work for other calls, then or later, so a fault fires only where the work can be told to
// belong to the call that is to meet it.
// (No maps here or in world that tasks change: the runtime reports their use to the race detector.)
type callCtx struct {
	o      *Op
	text   string // what the call has tokenized
	comp   int
	counts [numComps]int
	fired  bool
	ended  bool
	other  bool // the last text tokenized under this context was not the call's

	engines int // engine runs begun
	puts    int // Puts of indices begun
}

func (w *world) newCallCtx(o *Op) *callCtx {
	c := &callCtx{o: o, comp: -1, text: o.T + w.suffix}
	if o.K == "put" {
		c.text = w.p.Docs[o.D].Stmt + w.suffix
	}
	if o.F != nil {
		for i, n := range compNames {
			if n == o.F.Comp {
				c.comp = i
			}
		}
	}
	return c
}

func current() *callCtx {
	c, _ := simrt.Ctx().(*callCtx)
	return c
}

// Injected is a panic value of an injected fault.
type Injected struct{ Comp string }

func (i Injected) Error() string { return "injected panic in " + i.Comp }

// at is called at every callback of a component, with the call it belongs to, if that is known.
func (w *world) at(comp int, c *callCtx) {
	if simrt.Aborting() {
		return
	}
	if c == nil || c.ended {
		if w.p.Yield && comp != cIndexer {
			simrt.Point(compNames[comp])
		}
		return
	}
	c.counts[comp]++
	if w.p.Yield && (comp != cIndexer || c.counts[comp]%5 == 1) {
		simrt.Point(compNames[comp])
	}
	f := c.o.F
	if c.comp != comp || c.counts[comp] < f.Nth || c.counts[comp] > f.Nth && !f.All {
		return
	}
	c.fired = true
	simrt.Note("fault: " + f.Kind + " in " + f.Comp)
	if f.Kind == "stall" {
		w.stalls[comp]++
		simrt.Stall(time.Duration(f.Dur))
		return
	}
	w.panics[comp]++
	switch f.Val {
	case 1:
		panic(errors.New("injected panic in " + f.Comp))
	case 2:
		panic("injected panic in " + f.Comp)
	case 3:
		var m map[string]int
		m["injected"] = 1 // a runtime error
	case 4:
		panic([]string{"injected panic in " + f.Comp}) // not comparable
	case 5:
		panic(nil)
	}
	panic(Injected{f.Comp})
}

type simTokenizer struct {
	w      *world
	inner  *visigoth.CleanTokenizer
	shared map[string][]string
}

// Tokenize may return the same slice, with spare capacity, to every caller that asks for the same text.
func (t *simTokenizer) Tokenize(text string) []string {
	c := current()
	if c != nil && !c.ended {
		c.other = c.text != text
		if c.other {
			c = nil
		}
	}
	t.w.at(cTokenizer, c)
	if l, ok := t.shared[text]; ok {
		return l
	}
	return t.inner.Tokenize(text)
}

func (t *simTokenizer) share(text string) {
	if _, ok := t.shared[text]; !ok {
		l := t.inner.Tokenize(text)
		t.shared[text] = append(l, "spare", "spare")[:len(l)]
	}
}

type simFilter struct {
	w     *world
	inner visigoth.Filter
	name  string
}

func (f *simFilter) Filter(tokens []string) []string {
	c := current()
	if c != nil && c.other {
		c = nil
	}
	f.w.at(cFilter, c)
	full := tokens[:cap(tokens)]
	before := touch.Strings(full)
	out := f.inner.Filter(tokens)
	after := touch.Strings(full)
	for i := range before {
		if before[i] != after[i] {
			f.w.bad("filter-input", fmt.Sprintf("%s changed the token list it was given: %q became %q", f.name, before, after))
		}
	}
	return out
}

type simIndexer struct {
	w *world
	x visigoth.Indexer
	c *callCtx
}

func (s *simIndexer) Len() int                    { s.w.at(cIndexer, s.c); return s.x.Len() }
func (s *simIndexer) Indexed(key string) []int    { s.w.at(cIndexer, s.c); return s.x.Indexed(key) }
func (s *simIndexer) Document(i int) visigoth.Doc { s.w.at(cIndexer, s.c); return s.x.Document(i) }

type scribbleIndexer struct{ visigoth.Indexer }

func (s scribbleIndexer) Indexed(key string) []int {
	l := s.Indexer.Indexed(key)
	if l == nil {
		return nil
	}
	c := touch.Ints(l)
	touch.ScribbleInts(l) // the caller owns the list it received
	return c
}

// engine wraps a real engine with fault points.
func (w *world) engine(kind string, c *callCtx) visigoth.Engine {
	var real visigoth.Engine
	switch kind {
	case "all":
		real = visigoth.NoopAllSearch
	case "zero":
		real = visigoth.NoopZeroSearch
	case "linear":
		real = visigoth.LinearSearch
	default:
		real = visigoth.HitsSearch
	}
	if w.p.Bare && !w.p.Uses && !w.p.ScrTok && !w.p.Probe && (c == nil || c.comp != cEngine && c.comp != cEngineAfter && c.comp != cIndexer) {
		return real
	}
	return func(tokens []string, x visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
		w.used(c, "its search engine")
		c.engines++
		w.at(cEngine, c)
		if w.p.ScrTok {
			x = scribbleIndexer{x}
		}
		var pr *probe
		if w.p.Probe {
			pr = w.probe(c, tokens, x)
		}
		if !w.p.Bare || c != nil && c.comp == cIndexer {
			x = &simIndexer{w, x, c}
		}
		out := real(tokens, x)
		if pr != nil {
			simrt.Point("probe")
			pr.again("after the search engine ran")
		}
		if w.p.ScrTok {
			touch.ScribbleStrings(tokens)
		}
		w.at(cEngineAfter, c)
		if pr != nil {
			pr.again("later in the same call of the search engine")
		}
		return out
	}
}

// simIndex is a caller-supplied index around a real one.
type simIndex struct {
	w       *world
	inner   visigoth.Index
	name    string
	writes  int
	reads   int
	written string

	// for Uses
	made    int64 // when
	nPuts   int
	first   *callCtx // whose Put came first
	holds   []bool   // the documents Put was called with
	earlier *simIndex
}

// used notes that a component works for a call, which must not be over.
func (w *world) used(c *callCtx, what string) {
	if w.p.Uses && c != nil && c.ended {
		w.bad("used-later", what+" is used for "+c.o.String(w.p.Docs)+" after that call ended")
	}
}

// uses checks, after a run, what the indices were built for.
func (w *world) uses() (string, string) {
	for i := w.built; i != nil; i = i.earlier {
		what := "an index was built for " + strconv.Quote(i.name)
		if i.nPuts == 0 {
			return "built-for-nothing", what + ", into which nothing was ever put"
		}
		var by *Rec
		for _, l := range w.recs {
			for _, r := range l {
				if i.first != nil && r.Op == i.first.o {
					by = r
				}
			}
		}
		switch {
		case by == nil:
			return "built-wrongly", what + "; the document put into it first is nobody's"
		case by.Op.A != i.name || i.made < by.Call || i.made > by.Ret:
			return "built-wrongly", what + " at " + fmt.Sprint(i.made) + "; what was put into it first is from " + by.describe(w.p.Docs)
		}
		by.Built++
	}
	return "", ""
}

// enter notes that a call of the index begins, and whether it may.
func (i *simIndex) enter(write bool, what string) {
	if i.writes > 0 || write && i.reads > 0 {
		if i.w.p.Excl {
			i.w.bad("index-shared", what+" of the index built for "+strconv.Quote(i.name)+" began while "+i.written+" was under way on it")
		}
	}
	if write {
		i.writes++
	} else {
		i.reads++
	}
	i.written = what
}

func (i *simIndex) leave(write bool) {
	if write {
		i.writes--
	} else {
		i.reads--
	}
}

func (i *simIndex) Put(d visigoth.DocRequest) visigoth.Index {
	i.enter(true, "Put")
	defer i.leave(true)
	var c *callCtx
	if n, ok := i.w.byRaw[strings.TrimSuffix(d.Raw(), i.w.suffix)]; ok {
		c = i.w.puts[n]
	}
	if i.w.p.Uses {
		i.w.used(c, "a Put of the index built for "+strconv.Quote(i.name))
		if i.nPuts == 0 {
			i.first = c
		}
		i.nPuts++
		if c != nil {
			c.puts++
			if i.holds[c.o.D] {
				i.w.bad("put-twice", c.o.String(i.w.p.Docs)+" called Put of the index built for "+strconv.Quote(i.name)+" more than once")
			}
			i.holds[c.o.D] = true
		}
	}
	i.w.at(cIndexPut, c)
	i.inner.Put(d)
	i.w.at(cIndexPutAfter, c)
	return i
}

func (i *simIndex) Search(terms string, e visigoth.Engine) slices.Slice[visigoth.SearchResult] {
	i.enter(false, "Search")
	defer i.leave(false)
	c := current()
	if c != nil && (c.o.K != "search" || c.o.T != strings.TrimSuffix(terms, i.w.suffix)) {
		c = nil
	}
	i.w.at(cIndexSearch, c)
	return i.inner.Search(terms, e)
}

func (i *simIndex) String() string {
	i.enter(false, "String")
	defer i.leave(false)
	if i.w.p.Excl {
		simrt.Point("String")
	}
	c := current()
	if c != nil && c.o.K != "string" {
		c = nil
	}
	i.w.at(cIndexString, c)
	if s, ok := i.inner.(fmt.Stringer); ok {
		return s.String()
	}
	return "index"
}

// clean makes the tokenizer, in some programs of the caller's own classes of runes and beside
// tokenizers of other classes.
func (w *world) clean() *visigoth.CleanTokenizer {
	if !w.p.Classes {
		return visigoth.NewKeepAlphanumericTokenizer()
	}
	visigoth.NewCleanTokenizer(unicode.IsSpace)
	t := visigoth.NewCleanTokenizer(unicode.IsLetter, unicode.IsNumber)
	visigoth.NewCleanTokenizer(unicode.IsPunct, unicode.IsLetter, unicode.IsSpace)
	return &t
}

func (w *world) pipeline() *visigoth.TokenizationPipeline {
	if w.p.BarePipe {
		var fs []visigoth.Filter
		if w.p.Pipe >= PipeLower {
			fs = append(fs, visigoth.NewLowerCaseTokenizer())
		}
		if w.p.Pipe >= PipeStop {
			fs = append(fs, visigoth.NewStopWordsFilter(visigoth.SpanishStopWords))
		}
		if w.p.Pipe >= PipeFull {
			fs = append(fs, visigoth.NewSpanishStemmer(true))
		}
		return visigoth.NewTokenizationPipeline(w.clean(), fs...)
	}
	t := &simTokenizer{w: w, inner: w.clean()}
	if w.p.Shared {
		t.shared = map[string][]string{}
		for _, d := range w.p.Docs {
			t.share(d.Stmt)
		}
		for _, c := range append([][]Op{w.p.Setup, w.p.Post}, w.p.Clients...) {
			for _, o := range c {
				if o.T != "" {
					t.share(o.T)
				}
			}
		}
	}
	var fs []visigoth.Filter
	add := func(f visigoth.Filter, n string) { fs = append(fs, &simFilter{w, f, n}) }
	if w.p.Pipe >= PipeLower {
		add(visigoth.NewLowerCaseTokenizer(), "the lower-case filter")
	}
	if w.p.Pipe >= PipeStop {
		add(visigoth.NewStopWordsFilter(visigoth.SpanishStopWords), "the stop-word filter")
	}
	if w.p.Pipe >= PipeFull {
		add(visigoth.NewSpanishStemmer(true), "the stemmer filter")
	}
	return visigoth.NewTokenizationPipeline(t, fs...)
}

func (w *world) builder(pl *visigoth.TokenizationPipeline) visigoth.Builder {
	real := visigoth.NewMemoryIndexBuilder(pl)
	return func(name string) visigoth.Index {
		c := current()
		if c != nil && (c.o.K != "put" || c.o.A != strings.TrimSuffix(name, w.suffix)) {
			c = nil
		}
		w.at(cBuilder, c)
		in := real(name)
		if w.p.Wrap {
			i := &simIndex{w: w, inner: in, name: name}
			if w.p.Uses {
				i.made, i.earlier, i.holds = simrt.Seq(), w.built, make([]bool, len(w.p.Docs))
				w.built = i
			}
			return i
		}
		return in
	}
}
