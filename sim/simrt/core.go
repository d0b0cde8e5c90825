// Package simrt is the simulator: every goroutine of a simulated run is a real
// goroutine, but exactly one of them (the one holding the baton) runs at any moment,
// and which one runs next is decided here, from one seeded PRNG or from a recorded schedule.
//
// The package (and everything below simrt/) is compiled without race instrumentation
// and hands the baton over with runtime semaphores, which the race detector does not
// see. So a race-instrumented build of the code under test reports a data race whenever
// two accesses are unordered by the *program's own* synchronisation, in a schedule
// that the simulator fixed.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

//go:linkname semacquire sync.runtime_Semacquire
func semacquire(s *uint32)

//go:linkname semrelease sync.runtime_Semrelease
func semrelease(s *uint32, handoff bool, skipframes int)

// Task states.
const (
	ready uint8 = iota
	blocked
	sleeping
	done
)

// Task is one simulated goroutine.
type Task struct {
	ID     int
	Name   string
	Client bool
	timer  bool
	Ctx    any // inherited by goroutines the task starts
	Site   int32

	state  uint8
	cond   func() bool
	why    string
	wakeAt int64
	sema   uint32
	prio   int64
	nsync  int64
}

// Policy kinds.
const (
	PolRandom = iota // uniform choice at every point
	PolSticky        // keep running, switch with probability SwitchP
	PolPCT           // random priorities with D change points
	PolRR            // round robin, quantum 1..4
	PolStarve        // one task runs only when nothing else can
	PolSerial        // run until blocked, random next
	NumPolicies
)

var PolicyNames = [...]string{"random", "sticky", "pct", "round-robin", "starve-one", "run-to-block"}

// Override says: at scheduling point Pt, task ID runs next although it is not the default choice.
type Override struct {
	Pt int64 `json:"pt"`
	ID int   `json:"task"`
}

// Config of one run.
type Config struct {
	SchedSeed uint64
	EnvSeed   uint64
	Policy    int
	SwitchP   float64 // PolSticky
	StmtP     float64 // preemption probability at every statement of the code under test
	PCTDepth  int
	Replay    bool
	Schedule  []Override
	Trace     bool // keep a readable event log
	UnfairPts int64
	MaxPts    int64
}

// Failure of a run, detected by the scheduler itself.
type Failure struct {
	Kind string // deadlock, livelock, crash
	Msg  string
}

// Event of the readable log.
type Event struct {
	Pt   int64  `json:"pt"`
	T    int64  `json:"t_ns"`
	Task string `json:"task"`
	What string `json:"what"`
	Site string `json:"at,omitempty"`
}

// Stats of one run.
type Stats struct {
	Points, SyncOps, Switches, Preempts, StmtPreempts, Tasks, Blocks, Sleeps int64
	SimTime                                                                  int64
	Interleaving                                                             uint64
	Leaked                                                                   int64
	EnvDraws                                                                 int64
	PoolDrops, TryFails, MapShuffles, StallNs                                int64
}

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) intn(n int) int { return int(r.next() % uint64(n)) }
func (r *rng) float() float64 { return float64(r.next()>>11) / (1 << 53) }

// Sim is one run.
type Sim struct {
	cfg      Config
	tasks    []*Task // not those that were forgotten
	ntasks   int
	cur      *Task
	ctl      uint32
	sched    rng
	env      rng
	now      int64
	pt       int64 // scheduling points: statements and decisions
	dec      int64 // scheduling decisions
	con      int64 // of these: with more than one task to choose from
	con0     int64 // con and dec at the last progress
	dec0     int64
	pt0      int64
	pct      int64 // con while there are several clients
	live     []*Task
	stmt     bool
	seq      int64
	aborting bool
	abortPts int64
	fail     *Failure
	clients  int
	grace    int64
	ovi      int
	rec      []Override
	events   []Event
	run      []*Task
	pctAt    []int64
	pctLow   int64
	starve   int
	quantum  int
	rr       int
	stats    Stats
	join     uint64
	ended    bool
	peak     int // most tasks alive at a time
	pools    *Store
}

// Store is what a pool remembers of a run: the collector may empty it.
type Store struct {
	Clear func()
	run   *Sim
	next  *Store
}

// Used notes that there is something in the pool.
func (p *Store) Used() {
	if s := S; s != nil && p.run != s {
		p.run, p.next = s, s.pools
		s.pools = p
	}
}

// S is the run in progress, nil outside runs.
var S *Sim

// Sites of the instrumented statements, set by the generated code; Cover counts executions.
var (
	Sites  []string
	Cover  []uint32
	resets []func()
)

// RegisterSites is called by the generated code of each instrumented package; it returns the offset of its sites.
func RegisterSites(s []string) int32 {
	off := len(Sites)
	Sites = append(Sites, s...)
	Cover = append(Cover, make([]uint32, len(s))...)
	return int32(off)
}

// RegisterReset adds a function that re-initialises the package-level state of an instrumented package.
func RegisterReset(f func()) { resets = append(resets, f) }

// ResetGlobals puts the package-level variables of all instrumented packages into their initial state.
func ResetGlobals() {
	for _, f := range resets {
		f()
	}
}

func siteName(i int32) string {
	if i <= 0 || int(i) >= len(Sites) {
		return ""
	}
	return Sites[i]
}

// Result of a run.
type Result struct {
	Fail     *Failure
	Schedule []Override
	Events   []Event
	Stats    Stats
}

// Run executes root as the first task of a fresh simulation and returns when all client tasks ended.
func Run(cfg Config, root func()) *Result {
	if S != nil {
		panic("simrt: nested run")
	}
	if cfg.UnfairPts == 0 {
		cfg.UnfairPts = 20000
	}
	if cfg.MaxPts == 0 {
		cfg.MaxPts = 400000
	}
	cpus = []int{1, 2, 4, 8, 64}[int((cfg.EnvSeed>>7)%5)]
	s := &Sim{cfg: cfg, sched: rng{cfg.SchedSeed}, env: rng{cfg.EnvSeed ^ 0x5bd1e995}}
	s.stats.Interleaving = 1469598103934665603
	if cfg.Policy == PolPCT {
		span := []int{60, 300, 1500}[s.sched.intn(3)]
		for i := 0; i < cfg.PCTDepth; i++ {
			s.pctAt = append(s.pctAt, int64(s.sched.intn(span)))
		}
	}
	s.starve = 1 + s.sched.intn(6)
	S = s
	t := s.spawn("main", true, nil, func() {
		ResetGlobals()
		root()
	})
	s.cur = t
	semrelease(&t.sema, false, 0)
	semacquire(&s.ctl)
	s.ended = true
	s.aborting = true
	for i := 0; i < len(s.tasks); i++ {
		if t := s.tasks[i]; t.state != done {
			s.stats.Leaked++
			s.cur = t
			semrelease(&t.sema, false, 0)
			semacquire(&s.ctl)
		}
	}
	RaceAcquire(unsafe.Pointer(&s.join))
	s.cur = nil
	S = nil
	s.stats.Points = s.dec
	s.stats.Tasks = int64(s.ntasks)
	s.stats.SimTime = s.now
	return &Result{Fail: s.fail, Schedule: s.rec, Events: s.events, Stats: s.stats}
}

func (s *Sim) spawn(name string, client bool, ctx any, fn func()) *Task {
	t := &Task{ID: s.ntasks, Name: name, Client: client, Ctx: ctx}
	t.prio = int64(s.sched.next() >> 2)
	s.tasks = append(s.tasks, t)
	s.ntasks++
	s.live = append(s.live, t)
	if len(s.live) > s.peak {
		s.peak = len(s.live)
	}
	if client {
		s.clients++
	}
	go taskMain(s, t, fn)
	return t
}

func taskMain(s *Sim, t *Task, fn func()) {
	semacquire(&t.sema)
	normal := false
	defer taskEnd(s, t)
	defer func() {
		if !normal && !s.aborting {
			r := recover()
			if r != nil {
				s.setFail("crash", fmt.Sprintf("panic in goroutine %q that nobody can recover (the process would die): %v\n%s", t.Name, r, trimStack(debug.Stack())))
			}
		}
	}()
	if s.aborting {
		return
	}
	fn()
	normal = true
}

func trimStack(b []byte) string {
	var out []string
	lines := strings.Split(string(b), "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "visigoth") && !strings.HasPrefix(l, "\t") && i+1 < len(lines) {
			f := strings.TrimSpace(lines[i+1])
			if j := strings.Index(f, " +0x"); j > 0 {
				f = f[:j]
			}
			if j := strings.LastIndex(f, "/"); j >= 0 {
				f = f[j+1:]
			}
			n := l
			if j := strings.LastIndex(n, "/"); j >= 0 {
				n = n[j+1:]
			}
			if j := strings.LastIndex(n, "("); j > 0 {
				n = n[:j]
			}
			out = append(out, "  "+n+" "+f)
			if len(out) >= 8 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// TrimStack shortens a stack trace to the frames of the code under test.
func TrimStack(b []byte) string { return trimStack(b) }

func taskEnd(s *Sim, t *Task) {
	t.state = done
	for i := range s.live {
		if s.live[i] == t {
			for ; i < len(s.live)-1; i++ { // copy() would be reported to the race detector
				s.live[i] = s.live[i+1]
			}
			s.live = s.live[:i]
			break
		}
	}
	if t.Client {
		s.clients--
	}
	RaceReleaseMerge(unsafe.Pointer(&s.join))
	if s.aborting {
		semrelease(&s.ctl, false, 0)
		return
	}
	s.event(t, "ends")
	s.pt++
	next := s.pick()
	if next == nil {
		semrelease(&s.ctl, false, 0)
		return
	}
	s.cur = next
	semrelease(&next.sema, false, 0)
}

func (s *Sim) setFail(kind, msg string) {
	if s.fail == nil {
		s.fail = &Failure{kind, msg}
	}
}

func (s *Sim) event(t *Task, what string) {
	if s.cfg.Trace && !s.aborting {
		s.events = append(s.events, Event{s.pt, s.now, t.Name, what, siteName(t.Site)})
	}
}

func (s *Sim) isReady(t *Task) bool {
	switch t.state {
	case ready:
		return true
	case blocked:
		return t.cond != nil && t.cond()
	case sleeping:
		return t.wakeAt <= s.now
	}
	return false
}

// pick makes one scheduling decision. It returns nil when the run is over (finished or failed).
func (s *Sim) pick() *Task {
	if s.fail != nil {
		return nil
	}
	if s.clients == 0 {
		s.grace++
		if s.grace > 3000 {
			return nil
		}
	}
	stmt := s.stmt
	s.stmt = false
	before := [3]int64{s.dec, s.now, s.con}
	s.dec++
	s.now += 1000
	if s.con-s.con0 > s.cfg.MaxPts || s.dec-s.dec0 > s.cfg.MaxPts*10 {
		s.setFail("livelock", fmt.Sprintf("no call has returned for %d scheduling decisions, %d of them with several tasks to choose from (fair random scheduling after %d of these)\n%s", s.dec-s.dec0, s.con-s.con0, s.cfg.UnfairPts, s.dump()))
		return nil
	}
	if s.dec > s.cfg.MaxPts*100 {
		s.setFail("livelock", fmt.Sprintf("the run does not end: %d scheduling decisions\n%s", s.dec, s.dump()))
		return nil
	}
	me := s.cur
	run := s.run[:0]
	for {
		for _, t := range s.live {
			if s.isReady(t) {
				run = append(run, t)
			}
		}
		if len(run) > 0 {
			break
		}
		var first int64 = -1
		for _, t := range s.live {
			if t.state == sleeping && (first < 0 || t.wakeAt < first) {
				first = t.wakeAt
			}
		}
		if first < 0 {
			if s.clients > 0 {
				s.setFail("deadlock", "no task can run:\n"+s.dump())
			}
			return nil
		}
		s.now = first
	}
	s.run = run
	if len(run) > 1 {
		s.con++
		if s.clients > 2 {
			s.pct++
		}
	}
	// Default choice: go on with the running task, else the next one by id.
	var def *Task
	for _, t := range run {
		if t == me {
			def = t
		}
	}
	if def == nil {
		def = run[0]
		for _, t := range run {
			if t.ID > me.ID {
				def = t
				break
			}
		}
	}
	next := def
	if s.cfg.Replay {
		for s.ovi < len(s.cfg.Schedule) && s.cfg.Schedule[s.ovi].Pt < s.pt {
			s.ovi++
		}
		if s.ovi < len(s.cfg.Schedule) && s.cfg.Schedule[s.ovi].Pt == s.pt {
			id := s.cfg.Schedule[s.ovi].ID
			s.ovi++
			for _, t := range run {
				if t.ID == id {
					next = t
				}
			}
		}
	} else if len(run) > 1 {
		next = s.choose(run, me, def, stmt)
	}
	if stmt && next == me { // nothing happened, and a replay will not come here
		s.dec, s.now, s.con = before[0], before[1], before[2]
	}
	if next != def {
		s.rec = append(s.rec, Override{s.pt, next.ID})
	}
	if next != me {
		s.stats.Switches++
		if def == me {
			s.stats.Preempts++
		}
	}
	next.state = ready
	next.cond = nil
	return next
}

func (s *Sim) choose(run []*Task, me, def *Task, stmt bool) *Task {
	pol := s.cfg.Policy
	if stmt {
		pol = PolRandom
	}
	if s.con-s.con0 > s.cfg.UnfairPts {
		pol = PolRandom
	}
	switch pol {
	case PolSticky:
		if def == me && s.sched.float() >= s.cfg.SwitchP {
			return me
		}
		return run[s.sched.intn(len(run))]
	case PolPCT:
		for _, at := range s.pctAt {
			if at == s.pct {
				s.pctLow--
				me.prio = s.pctLow
			}
		}
		best := run[0]
		for _, t := range run {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	case PolRR:
		if def == me && s.quantum > 0 {
			s.quantum--
			return me
		}
		s.quantum = s.sched.intn(4)
		for _, t := range run {
			if t.ID > me.ID {
				return t
			}
		}
		return run[0]
	case PolStarve:
		n := 0
		for _, t := range run {
			if t.ID != s.starve {
				run[n] = t
				n++
			}
		}
		if n == 0 {
			return run[0]
		}
		return run[s.sched.intn(n)]
	case PolSerial:
		if def == me {
			return me
		}
		return run[s.sched.intn(len(run))]
	}
	return run[s.sched.intn(len(run))]
}

func (s *Sim) dump() string {
	var b strings.Builder
	for _, t := range s.tasks {
		if t.state == done {
			continue
		}
		switch {
		case t.state == blocked && !s.isReady(t):
			fmt.Fprintf(&b, "  %s waits for %s", t.Name, t.why)
		case t.state == sleeping:
			fmt.Fprintf(&b, "  %s sleeps", t.Name)
		default:
			fmt.Fprintf(&b, "  %s can run", t.Name)
		}
		if n := siteName(t.Site); n != "" {
			fmt.Fprintf(&b, " near %s", n)
		}
		b.WriteString("\n")
	}
	return b.String()
}

// resched lets the scheduler decide who runs; it returns when the calling task is chosen again.
func (s *Sim) resched() {
	s.pt++
	s.reschedAt()
}

func (s *Sim) reschedAt() {
	me := s.cur
	next := s.pick()
	if next == me {
		return
	}
	if next == nil {
		semrelease(&s.ctl, false, 0)
	} else {
		s.cur = next
		semrelease(&next.sema, false, 0)
	}
	semacquire(&me.sema)
	if s.aborting {
		runtime.Goexit()
	}
}

func (s *Sim) abortStep() {
	s.abortPts++
	if s.abortPts > 5000000 {
		fmt.Println("simrt: a task does not end while it is being unwound")
		exit(3)
	}
}

// Progress says that a call of a client has returned.
func Progress() {
	if s := S; s != nil {
		s.con0, s.dec0, s.pt0 = s.con, s.dec, s.pt
	}
}

// Point is a scheduling point before (or after) a synchronising operation.
func Point(what string) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	if s.aborting {
		s.abortStep()
		return
	}
	t := s.cur
	s.stats.SyncOps++
	t.nsync++
	s.event(t, what)
	s.resched()
	h := s.stats.Interleaving
	h = (h ^ uint64(t.ID)) * 1099511628211
	h = (h ^ uint64(len(what))) * 1099511628211
	h = (h ^ uint64(uint32(t.Site))) * 1099511628211
	s.stats.Interleaving = h
}

// Block parks the calling task until cond holds. The condition must only change by other tasks' actions.
func Block(what string, cond func() bool) {
	s := S
	if s == nil || s.cur == nil {
		if cond() {
			return
		}
		panic("simrt: " + what + " would block outside a simulated run")
	}
	if s.aborting {
		s.abortStep()
		return
	}
	if cond() {
		return
	}
	t := s.cur
	s.stats.Blocks++
	t.state = blocked
	t.cond = cond
	t.why = what
	s.event(t, "blocks on "+what)
	s.resched()
}

// Sleep parks the calling task for d of simulated time.
func Sleep(d time.Duration) {
	s := S
	if s == nil || s.cur == nil || s.aborting {
		return
	}
	t := s.cur
	s.stats.Sleeps++
	t.state = sleeping
	t.wakeAt = s.now + int64(d)
	t.why = "time"
	s.event(t, "sleeps "+d.String())
	s.resched()
}

// Stall is Sleep, counted as an injected stall.
func Stall(d time.Duration) {
	if s := S; s != nil && !s.aborting {
		s.stats.StallNs += int64(d)
	}
	Sleep(d)
}

// P marks a statement of the code under test: it counts coverage and, in runs that ask for
// it, is a preemption point too.
func P(site int32) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	Cover[site]++
	s.cur.Site = site
	if s.aborting {
		s.abortStep()
		return
	}
	s.pt++
	if s.cfg.Replay {
		for s.ovi < len(s.cfg.Schedule) && s.cfg.Schedule[s.ovi].Pt < s.pt {
			s.ovi++
		}
		if s.ovi < len(s.cfg.Schedule) && s.cfg.Schedule[s.ovi].Pt == s.pt {
			s.stats.StmtPreempts++
			s.event(s.cur, "is preempted")
			s.reschedAt()
			return
		}
	} else if s.cfg.StmtP > 0 && s.sched.float() < s.cfg.StmtP {
		s.stmt = true
		s.stats.StmtPreempts++
		s.event(s.cur, "is preempted")
		s.reschedAt()
		return
	}
	if s.pt-s.pt0 > s.cfg.MaxPts*200 {
		s.setFail("livelock", fmt.Sprintf("no call has returned for %d statements\n%s", s.pt-s.pt0, s.dump()))
		semrelease(&s.ctl, false, 0)
		semacquire(&s.cur.sema)
		runtime.Goexit()
	}
}

// Cur returns the running task, nil outside runs.
func Cur() *Task {
	if S == nil {
		return nil
	}
	return S.cur
}

// Ctx returns the context value of the running task.
func Ctx() any {
	if t := Cur(); t != nil {
		return t.Ctx
	}
	return nil
}

// SetCtx sets the context value of the running task; goroutines it starts inherit it.
func SetCtx(v any) {
	if t := Cur(); t != nil {
		t.Ctx = v
	}
}

// Go starts a goroutine of the code under test.
func Go(fn func()) {
	s := S
	if s == nil || s.cur == nil {
		return // by an init function of the code under test: runs again at the start of every run
	}
	if s.aborting {
		return
	}
	name := s.cur.Name + ">g" + itoa(s.ntasks)
	t := s.spawn(name, false, s.cur.Ctx, fn)
	t.Site = s.cur.Site
	s.event(s.cur, "starts goroutine "+name)
	Point("go")
}

// GoClient starts a client task.
func GoClient(name string, fn func()) *Task {
	s := S
	t := s.spawn(name, true, nil, fn)
	s.event(s.cur, "starts client "+name)
	return t
}

// Done reports whether the task has ended.
func (t *Task) Done() bool { return t.state == done }

// Seq returns the next event sequence number: a total order over all stamps taken in a run.
func Seq() int64 {
	S.seq++
	return S.seq
}

// Now is the simulated time in nanoseconds since the start of the run.
func Now() int64 {
	if S == nil {
		return 0
	}
	return S.now
}

// Aborting reports whether the run is over and tasks are only being unwound.
func Aborting() bool { return S != nil && S.aborting }

// FailedRun ends the run now with a failure seen by the caller.
func FailedRun(kind, msg string) {
	s := S
	if s == nil || s.aborting {
		return
	}
	s.setFail(kind, msg)
	me := s.cur
	semrelease(&s.ctl, false, 0)
	semacquire(&me.sema)
	runtime.Goexit()
}

// Env draws from the environment PRNG (select choice, map order, pool drops...).
func Env(n int) int {
	s := S
	if s == nil || n <= 1 {
		return 0
	}
	s.stats.EnvDraws++
	return s.env.intn(n)
}

// Counters for the environment faults.
func CountPoolDrop() {
	if S != nil {
		S.stats.PoolDrops++
	}
}
func CountTryFail() {
	if S != nil {
		S.stats.TryFails++
	}
}

// MapOrder returns the keys 0..n-1 in a seeded order.
func MapOrder(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if S != nil && n > 1 {
		S.stats.MapShuffles++
		for i := n - 1; i > 0; i-- {
			j := Env(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	return p
}

// SortStrings sorts in place (used to fix an order before shuffling).
func SortStrings(s []string) { sort.Strings(s) }

// Note adds a line to the readable event log.
func Note(what string) {
	if s := S; s != nil && s.cur != nil && s.cfg.Trace && !s.aborting {
		s.event(s.cur, what)
	}
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// EnvU64 draws 64 bits from the environment PRNG.
func EnvU64() uint64 {
	if S == nil {
		return 0
	}
	S.stats.EnvDraws++
	return S.env.next()
}

// Forget lets go of the tasks that have ended, and returns how much memory the simulator needs
// for the record of the run.
func Forget() int {
	s := S
	n := 0
	for _, t := range s.tasks {
		if t.state != done {
			s.tasks[n] = t
			n++
		}
	}
	for i := n; i < len(s.tasks); i++ {
		s.tasks[i] = nil
	}
	s.tasks = s.tasks[:n]
	for i := range s.run[:cap(s.run)] {
		s.run[:cap(s.run)][i] = nil
	}
	// The runtime keeps a descriptor, of some 450 bytes, for as many goroutines as it ever had to have at a time.
	ended := (s.peak - len(s.live)) * 500
	for p := s.pools; p != nil; p = s.pools {
		s.pools = p.next
		p.run, p.next = nil, nil
		p.Clear()
	}
	return ended + cap(s.rec)*int(unsafe.Sizeof(Override{})) + cap(s.events)*int(unsafe.Sizeof(Event{})) + (cap(s.tasks)+cap(s.live))*8
}

// Join parks the calling task until the given tasks ended, and orders it after them.
func Join(ts []*Task) {
	Block("clients", func() bool {
		for _, t := range ts {
			if t.state != done {
				return false
			}
		}
		return true
	})
	if s := S; s != nil && !s.aborting {
		RaceAcquire(unsafe.Pointer(&s.join))
	}
}

// What the code under test is told about its machine: drawn per run.
var cpus = 4

func NumCPU() int        { return cpus }
func GOMAXPROCS(int) int { return cpus }
func GC()                { Point("GC") }
func NumGoroutine() int {
	n := 0
	if s := S; s != nil {
		for _, t := range s.live {
			if !t.timer {
				n++
			}
		}
	}
	return n
}

// GoTimer starts what waits for a timer: no goroutine in the Go runtime.
func GoTimer(fn func()) *Task {
	s := S
	if s == nil || s.cur == nil || s.aborting {
		return nil
	}
	t := s.spawn(s.cur.Name+">t"+itoa(s.ntasks), false, s.cur.Ctx, fn)
	t.Site, t.timer = s.cur.Site, true
	return t
}

// Wake ends the wait of a timer.
func Wake(t *Task) {
	if s := S; s != nil && t != nil && t.timer && t.state == sleeping {
		t.wakeAt = s.now
	}
}

// NotTimer turns the running task into a goroutine: the timer has fired and calls a function.
func NotTimer() {
	if t := Cur(); t != nil {
		t.timer = false
	}
}

// Decisions is the number of scheduling decisions made so far.
func Decisions() int64 {
	if S == nil {
		return 0
	}
	return S.dec
}
