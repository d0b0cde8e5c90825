package harness

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// The reference model: named indices (lists of document numbers) and aliases (sets of index
// names). One sequential state; every call is one atomic step.
type mIndex struct {
	name string
	docs []int32
	ord  bool // built in order; false after concurrent effects the order of which is not specified
}

type mAlias struct {
	name string
	idx  []string // sorted
}

type mState struct {
	idx   []mIndex // sorted by name
	alias []mAlias // sorted by name
}

func (s *mState) find(name string) int {
	i := sort.Search(len(s.idx), func(i int) bool { return s.idx[i].name >= name })
	if i < len(s.idx) && s.idx[i].name == name {
		return i
	}
	return -1
}

func (s *mState) findAlias(name string) int {
	i := sort.Search(len(s.alias), func(i int) bool { return s.alias[i].name >= name })
	if i < len(s.alias) && s.alias[i].name == name {
		return i
	}
	return -1
}

func (s *mState) clone() *mState {
	n := &mState{idx: make([]mIndex, len(s.idx)), alias: make([]mAlias, len(s.alias))}
	copy(n.idx, s.idx)
	copy(n.alias, s.alias)
	return n
}

func (s *mState) setIndex(name string, docs []int32) {
	i := sort.Search(len(s.idx), func(i int) bool { return s.idx[i].name >= name })
	if i < len(s.idx) && s.idx[i].name == name {
		s.idx[i].docs = docs
		return
	}
	s.idx = append(s.idx, mIndex{})
	copy(s.idx[i+1:], s.idx[i:])
	s.idx[i] = mIndex{name: name, docs: docs}
}

func (s *mState) delIndex(i int) { s.idx = append(s.idx[:i:i], s.idx[i+1:]...) }
func (s *mState) delAlias(i int) { s.alias = append(s.alias[:i:i], s.alias[i+1:]...) }

func (s *mState) setAlias(name string, idx []string) {
	i := sort.Search(len(s.alias), func(i int) bool { return s.alias[i].name >= name })
	if i < len(s.alias) && s.alias[i].name == name {
		s.alias[i].idx = idx
		return
	}
	s.alias = append(s.alias, mAlias{})
	copy(s.alias[i+1:], s.alias[i:])
	s.alias[i] = mAlias{name, idx}
}

func has(l []string, x string) bool {
	i := sort.SearchStrings(l, x)
	return i < len(l) && l[i] == x
}

func with(l []string, x string) []string {
	n := append(append(make([]string, 0, len(l)+1), l...), x)
	sort.Strings(n)
	return n
}

func without(l []string, x string) []string {
	var n []string
	for _, v := range l {
		if v != x {
			n = append(n, v)
		}
	}
	return n
}

// targets lists the indices a name means.
func (s *mState) targets(name string) (pos []int, alias, ok bool) {
	if i := s.find(name); i >= 0 {
		return []int{i}, false, true
	}
	if a := s.findAlias(name); a >= 0 {
		for _, n := range s.alias[a].idx {
			pos = append(pos, s.find(n))
		}
		return pos, true, true
	}
	return nil, false, false
}

func appendDoc(d []int32, x int32) []int32 {
	n := make([]int32, len(d)+1)
	copy(n, d)
	n[len(d)] = x
	return n
}

// Checks says which results a profile compares with the model.
type Checks struct {
	Bool, List, Aliases, Has, Search bool
	Order                            bool // storage order of results of one index
	Uses                             bool // how often components were used
	Text                             bool // what String shows
}

var allChecks = Checks{Bool: true, List: true, Aliases: true, Has: true, Search: true, Order: true}

// steps returns the states the model may be in after the call, none if the recorded result is impossible.
func (c *checker) steps(s *mState, r *Rec) []*mState {
	ck := c.checks
	o := r.Op
	one := func(n *mState, want, got, check bool) []*mState {
		if check && want != got {
			return nil
		}
		return []*mState{n}
	}
	switch o.K {
	case "has":
		return one(s, s.find(o.A) >= 0, r.OK, ck.Has)
	case "hasalias":
		return one(s, s.findAlias(o.A) >= 0, r.OK, ck.Has)
	case "list":
		if ck.List {
			if len(r.Names) != len(s.idx) {
				return nil
			}
			for i := range s.idx {
				if s.idx[i].name != r.Names[i] {
					return nil
				}
			}
		}
		return []*mState{s}
	case "aliases":
		if ck.Aliases {
			if len(r.Aliases) != len(s.alias) {
				return nil
			}
			for i, a := range s.alias {
				b := r.Aliases[i]
				if a.name != b.Alias || len(a.idx) != len(b.Indices) {
					return nil
				}
				for j := range a.idx {
					if a.idx[j] != b.Indices[j] {
						return nil
					}
				}
			}
		}
		return []*mState{s}
	case "alias":
		if s.find(o.B) < 0 {
			return one(s, false, r.OK, ck.Bool)
		}
		a := s.findAlias(o.A)
		if a >= 0 && has(s.alias[a].idx, o.B) {
			return one(s, false, r.OK, ck.Bool)
		}
		n := s.clone()
		if a >= 0 {
			n.setAlias(o.A, with(s.alias[a].idx, o.B))
		} else {
			n.setAlias(o.A, []string{o.B})
		}
		return one(n, true, r.OK, ck.Bool)
	case "unalias":
		a := s.findAlias(o.A)
		if o.B == "" {
			if a < 0 {
				return one(s, false, r.OK, ck.Bool)
			}
			n := s.clone()
			n.delAlias(a)
			return one(n, true, r.OK, ck.Bool)
		}
		if a < 0 || s.find(o.B) < 0 {
			return one(s, false, r.OK, ck.Bool)
		}
		if !has(s.alias[a].idx, o.B) {
			return []*mState{s} // result not specified: both exist, but are not associated
		}
		n := s.clone()
		if l := without(s.alias[a].idx, o.B); len(l) > 0 {
			n.setAlias(o.A, l)
		} else {
			n.delAlias(a)
		}
		return one(n, true, r.OK, ck.Bool)
	case "rename":
		i := s.find(o.A)
		if i < 0 {
			return one(s, false, r.OK, ck.Bool)
		}
		if o.A == o.B {
			return []*mState{s} // nothing changes; result not specified
		}
		n := s.clone()
		docs := s.idx[i].docs
		n.delIndex(i)
		n.setIndex(o.B, docs)
		for k := range n.alias {
			if l := n.alias[k].idx; has(l, o.A) {
				l = without(l, o.A)
				if !has(l, o.B) {
					l = with(l, o.B)
				}
				n.alias[k].idx = l
			}
		}
		return one(n, true, r.OK, ck.Bool)
	case "drop":
		i := s.find(o.A)
		if i < 0 {
			return one(s, false, r.OK, ck.Bool)
		}
		n := s.clone()
		n.delIndex(i)
		for k := 0; k < len(n.alias); k++ {
			if has(n.alias[k].idx, o.A) {
				if l := without(n.alias[k].idx, o.A); len(l) > 0 {
					n.alias[k].idx = l
				} else {
					n.delAlias(k)
					k--
				}
			}
		}
		return one(n, true, r.OK, ck.Bool)
	case "put":
		pos, _, ok := s.targets(o.A)
		if ck.Uses {
			build, puts := 0, len(pos)
			if !ok {
				build, puts = 1, 1
			}
			if r.Built > build || r.Puts > puts || !r.Failed && (r.Built < build || r.Puts < puts) {
				return nil
			}
		}
		if r.Failed { // an injected panic reached the caller: any subset of the targets has the document
			if !ok {
				n := s.clone()
				n.setIndex(o.A, []int32{int32(o.D)})
				return []*mState{s, n}
			}
			if len(pos) > 5 {
				c.tooBig = true
				return []*mState{s}
			}
			out := []*mState{s}
			for m := 1; m < 1<<len(pos); m++ {
				n := s.clone()
				for k, p := range pos {
					if m>>k&1 == 1 {
						n.idx[p].docs = appendDoc(n.idx[p].docs, int32(o.D))
					}
				}
				out = append(out, n)
			}
			return out
		}
		n := s.clone()
		if !ok {
			n.setIndex(o.A, []int32{int32(o.D)})
		}
		for _, p := range pos {
			n.idx[p].docs = appendDoc(n.idx[p].docs, int32(o.D))
		}
		return []*mState{n}
	case "string":
		if ck.Text {
			if len(r.Shown) != len(s.idx) {
				return nil
			}
			l := make([]string, len(s.idx))
			for i := range s.idx {
				l[i] = c.shown(s.idx[i].docs)
			}
			sort.Strings(l)
			if !equal(l, r.Shown) {
				return nil
			}
		}
		return []*mState{s}
	case "search":
		pos, alias, ok := s.targets(o.A)
		if ck.Uses && (r.Engines > len(pos) || !r.Failed && r.Engines < len(pos)) {
			return nil
		}
		if r.Failed || !ck.Search {
			return []*mState{s}
		}
		if !ok {
			return one(s, true, r.Err, true)
		}
		if r.Err {
			return nil
		}
		if r.Cut {
			return []*mState{s}
		}
		if !c.sameResults(s, pos, alias, r) {
			return nil
		}
		return []*mState{s}
	}
	return []*mState{s}
}

// shown is what the text of an index says of its tokens.
func (c *checker) shown(docs []int32) string {
	var k strings.Builder
	for _, d := range docs {
		k.WriteString(strconv.Itoa(int(d)))
		k.WriteByte(' ')
	}
	if t, ok := c.texts[k.String()]; ok {
		return t
	}
	if c.toks == nil {
		c.toks = docTokens(c.prog)
		c.texts = map[string]string{}
	}
	lists := map[string][]string{}
	for i, d := range docs {
		for t := range c.toks[d] {
			lists[t] = append(lists[t], strconv.Itoa(i))
		}
	}
	var l []string
	for t, n := range lists {
		l = append(l, t+" "+strconv.Itoa(len(n))+" "+strings.Join(n, " "))
	}
	sort.Strings(l)
	t := strings.Join(l, "\n")
	c.texts[k.String()] = t
	return t
}

// readText reads the text of a repository: what it shows of each index.
func readText(text string) (shown []string, wrong string) {
	var l []string
	in, named := false, false
	for n, line := range strings.Split(text, "\n") {
		wrong := "line " + strconv.Itoa(n+1) + " of the text is " + strconv.Quote(line)
		switch {
		case line == "{" && !in:
			in, named, l = true, false, nil
		case line == "}" && in && named:
			sort.Strings(l)
			shown = append(shown, strings.Join(l, "\n"))
			in = false
		case strings.HasPrefix(line, "\tname=") && in && !named:
			named = true
		case strings.HasPrefix(line, "\t[token=") && in && named:
			a, b, ok := strings.Cut(strings.TrimPrefix(line, "\t[token="), ",length=(")
			len, list, ok2 := strings.Cut(b, ")]=[")
			list, ok3 := strings.CutSuffix(list, "]")
			if !ok || !ok2 || !ok3 {
				return nil, wrong
			}
			l = append(l, a+" "+len+" "+list)
		case line == "" && !in:
		default:
			return nil, wrong
		}
	}
	if in {
		return nil, "the text ends in the middle of an index"
	}
	sort.Strings(shown)
	if shown == nil {
		shown = []string{}
	}
	return shown, ""
}

func (c *checker) sameResults(s *mState, pos []int, alias bool, r *Rec) bool {
	want := c.want[:0]
	m := c.match[r.Op.E == "all"][r.Op.T]
	if r.Op.E != "zero" {
		for _, p := range pos {
			for _, d := range s.idx[p].docs {
				if m == nil || m[d] {
					want = append(want, d)
				}
			}
		}
	}
	c.want = want
	if len(want) != len(r.Res) {
		return false
	}
	if !alias && c.checks.Order && r.Op.E != "hits" {
		for i := range want {
			if want[i] != r.Res[i] {
				return false
			}
		}
		return true
	}
	for _, d := range want {
		c.count[d]++
	}
	same := true
	for _, d := range r.Res {
		c.count[d]--
	}
	for _, d := range want {
		if c.count[d] != 0 {
			same = false
			c.count[d] = 0
		}
	}
	for _, d := range r.Res {
		if c.count[d] != 0 {
			same = false
			c.count[d] = 0
		}
	}
	return same
}

func (s *mState) hash(order bool) uint64 {
	h := uint64(1469598103934665603)
	str := func(x string) {
		for i := 0; i < len(x); i++ {
			h = (h ^ uint64(x[i])) * 1099511628211
		}
		h = (h ^ 0x1ff) * 1099511628211
	}
	for _, i := range s.idx {
		str(i.name)
		if order {
			for _, d := range i.docs {
				h = (h ^ uint64(d+1)) * 1099511628211
				h ^= h >> 29
			}
		} else {
			var sum, x uint64
			for _, d := range i.docs {
				v := Mix(uint64(d), 77)
				sum += v
				x ^= v * 0x9e3779b97f4a7c15
			}
			h = (h ^ sum) * 1099511628211
			h = (h ^ x) * 1099511628211
		}
		h = (h ^ 0x2ff) * 1099511628211
	}
	h = (h ^ 0x3ff) * 1099511628211
	for _, a := range s.alias {
		str(a.name)
		for _, i := range a.idx {
			str(i)
		}
		h = (h ^ 0x4ff) * 1099511628211
	}
	return h
}

func (s *mState) key(order bool) string {
	var b strings.Builder
	for _, i := range s.idx {
		d := i.docs
		if !order {
			d = append([]int32(nil), d...)
			sort.Slice(d, func(a, b int) bool { return d[a] < d[b] })
		}
		fmt.Fprintf(&b, "%q%v", i.name, d)
	}
	for _, a := range s.alias {
		fmt.Fprintf(&b, "|%q%q", a.name, a.idx)
	}
	return b.String()
}

func (s *mState) String() string { return s.key(true) }

// checker decides whether a history of one repository is linearizable.
type checker struct {
	checks Checks
	prog   *Program
	docs   []Doc
	toks   []map[string]bool
	texts  map[string]string
	match  map[bool]map[string][]bool
	want   []int32
	count  []int16
	tooBig bool

	recs   []*Rec
	memo   map[doneSet]struct{}
	exact  map[string]struct{}
	nodes  int
	limit  int
	prefix int // calls taken off at the front
	best   int
	bestS  *mState
	bestL  []*Rec
	stack  []*Rec
	final  []*mState
}

func newChecker(p *Program, ck Checks, recs []*Rec) *checker {
	c := &checker{checks: ck, prog: p, docs: p.Docs, recs: recs, count: make([]int16, len(p.Docs)+1)}
	c.match = map[bool]map[string][]bool{true: {}, false: {}}
	var toks []map[string]bool
	for _, r := range recs {
		if r.Op.K != "search" || r.Op.E == "all" {
			continue
		}
		if _, ok := c.match[false][r.Op.T]; ok {
			continue
		}
		if toks == nil {
			toks = make([]map[string]bool, len(p.Docs))
			for i, d := range p.Docs {
				toks[i] = map[string]bool{}
				for _, t := range RefTokens(p.Pipe, d.Stmt) {
					toks[i][t] = true
				}
			}
		}
		q := RefTokens(p.Pipe, r.Op.T)
		m := make([]bool, len(p.Docs))
		for i := range p.Docs {
			m[i] = len(q) > 0
			for _, t := range q {
				m[i] = m[i] && toks[i][t]
			}
		}
		c.match[false][r.Op.T] = m
	}
	return c
}

// Verdicts.
const (
	linOK = iota
	linIllegal
	linUnknown
)

// check runs the search. Calls are linearised one at a time; a call may go next when no
// remaining call returned before it was invoked.
func (c *checker) check() int {
	// Calls that returned before any other was made come first, in that order.
	s0 := &mState{}
	for len(c.recs) > 1 && c.recs[0].Ret < c.recs[1].Call {
		ns := c.steps(s0, c.recs[0])
		if len(ns) != 1 {
			break
		}
		s0, c.recs = ns[0], c.recs[1:]
		c.prefix++
	}
	c.limit = 400000
	c.memo = map[doneSet]struct{}{}
	ok := c.dfs(s0, doneSet{}, 0)
	if ok {
		return linOK
	}
	if c.nodes >= c.limit || c.tooBig {
		return linUnknown
	}
	// Confirm without hashing of states.
	c.memo, c.exact, c.nodes = nil, map[string]struct{}{}, 0
	if c.dfs(s0, doneSet{}, 0) {
		return linOK
	}
	if c.nodes >= c.limit {
		return linUnknown
	}
	return linIllegal
}

// neverChanges says that the recorded call leaves every state as it is, whenever it took effect.
func (c *checker) neverChanges(r *Rec) bool {
	switch r.Op.K {
	case "put":
		return false
	case "alias", "unalias", "drop":
		return c.checks.Bool && !r.OK
	case "rename":
		return c.checks.Bool && !r.OK || r.Op.A == r.Op.B
	}
	return true
}

// doneSet is the set of the calls that were linearised: all before base, and some of the next 192.
type doneSet struct {
	base int
	bits [3]uint64
	hash uint64 // of the state, in the memo
}

func (d *doneSet) has(i int) bool {
	if i -= d.base; i < 0 {
		return true
	} else if i < 192 {
		return d.bits[i>>6]>>(i&63)&1 == 1
	}
	return false
}

// add adds a call; false if it does not fit.
func (d *doneSet) add(i int) bool {
	if i -= d.base; i >= 192 {
		return false
	}
	d.bits[i>>6] |= 1 << (i & 63)
	for d.bits[0]&1 == 1 {
		d.base++
		d.bits[0] = d.bits[0]>>1 | d.bits[1]<<63
		d.bits[1] = d.bits[1]>>1 | d.bits[2]<<63
		d.bits[2] >>= 1
	}
	return true
}

func (c *checker) dfs(s *mState, done doneSet, n int) bool {
	if n > c.best || c.bestS == nil {
		c.best, c.bestS = n, s
		c.bestL = append(c.bestL[:0], c.stack...)
	}
	if n == len(c.recs) {
		return true
	}
	c.nodes++
	if c.nodes >= c.limit {
		return false
	}
	if c.memo != nil {
		k := done
		k.hash = s.hash(c.checks.Order)
		if _, seen := c.memo[k]; seen {
			return false
		}
		c.memo[k] = struct{}{}
	} else {
		k := fmt.Sprint(done) + s.key(c.checks.Order)
		if _, seen := c.exact[k]; seen {
			return false
		}
		c.exact[k] = struct{}{}
	}
	var minRet int64 = 1 << 62
	for i := done.base; i < len(c.recs); i++ {
		r := c.recs[i]
		if r.Call > minRet {
			break // recs are ordered by Call
		}
		if !done.has(i) && r.Ret < minRet {
			minRet = r.Ret
		}
	}
	// A call that cannot change anything at any point, and is possible now, can always go first.
	var nexts [][]*mState
	var cand []int
	for i := done.base; i < len(c.recs); i++ {
		r := c.recs[i]
		if done.has(i) {
			continue
		}
		if r.Call > minRet {
			break
		}
		ns := c.steps(s, r)
		if len(ns) == 1 && ns[0] == s && c.neverChanges(r) {
			cand, nexts = []int{i}, [][]*mState{ns}
			break
		}
		if len(ns) > 0 {
			cand, nexts = append(cand, i), append(nexts, ns)
		}
	}
	for k, i := range cand {
		nd := done
		if !nd.add(i) {
			c.tooBig = true
			continue
		}
		for _, ns := range nexts[k] {
			c.stack = append(c.stack, c.recs[i])
			if c.dfs(ns, nd, n+1) {
				return true
			}
			c.stack = c.stack[:len(c.stack)-1]
		}
	}
	return false
}

// explain describes the longest explained prefix.
func (c *checker) explain() string {
	var b strings.Builder
	fmt.Fprintf(&b, "no order of the %d calls explains their results; at most %d of them, e.g. ", c.prefix+len(c.recs), c.prefix+c.best)
	if c.prefix > 0 {
		fmt.Fprintf(&b, "the first %d, which ran one at a time, and then ", c.prefix)
	}
	b.WriteString("in this order:\n")
	used := map[*Rec]bool{}
	for _, r := range c.bestL {
		used[r] = true
		fmt.Fprintf(&b, "  %s\n", r.describe(c.docs))
	}
	fmt.Fprintf(&b, "after which the reference model holds %s\nand none of these can come next:\n", c.bestS)
	var min int64 = 1 << 62
	for _, r := range c.recs {
		if !used[r] && r.Ret < min {
			min = r.Ret
		}
	}
	for _, r := range c.recs {
		if !used[r] && r.Call <= min {
			fmt.Fprintf(&b, "  %s\n", r.describe(c.docs))
		}
	}
	return b.String()
}
