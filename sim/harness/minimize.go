package harness

import (
	"time"

	"vsim/simrt"
)

// Found is a failing run.
type Found struct {
	Prog  *Program
	Cfg   simrt.Config
	Out   *Outcome
	Tries int
}

func (f *Found) ops() int {
	n := len(f.Prog.Setup) + len(f.Prog.Post)
	for _, c := range f.Prog.Clients {
		n += len(c)
	}
	return n
}

func clone(p *Program) *Program {
	q := *p
	q.Setup = append([]Op(nil), p.Setup...)
	q.Post = append([]Op(nil), p.Post...)
	q.Clients = make([][]Op, len(p.Clients))
	for i, c := range p.Clients {
		q.Clients[i] = append([]Op(nil), c...)
	}
	q.Indices = append([][]int(nil), p.Indices...)
	return &q
}

// Minimize shrinks a failing run: first the program (calls, clients, faults, options), searching
// again for a schedule that fails in the same way, then the schedule.
func Minimize(f *Found, budget time.Duration) *Found {
	stop := time.Now().Add(budget)
	rng := NewRng(f.Cfg.SchedSeed ^ f.Cfg.EnvSeed)
	fails := func(p *Program, cfg simrt.Config) *Found {
		o := RunOne(p, cfg)
		f.Tries++
		if o.Class == f.Out.Class {
			return &Found{Prog: p, Cfg: cfg, Out: o}
		}
		return nil
	}
	try := func(p *Program, n int) bool {
		for i := 0; i <= n; i++ {
			if time.Now().After(stop) {
				return false
			}
			cfg := f.Cfg
			if i > 0 {
				if i%2 == 1 {
					cfg.SchedSeed = rng.U64()
				} else {
					cfg = ConfigFor(p, rng.U64())
				}
			}
			if g := fails(p, cfg); g != nil {
				g.Tries = f.Tries
				*f = *g
				return true
			}
		}
		return false
	}
	const n = 60
	for changed := true; changed && time.Now().Before(stop); {
		changed = false
		step := func(mk func(p *Program) bool) {
			p := clone(f.Prog)
			if mk(p) && try(p, n) {
				changed = true
			}
		}
		for i := len(f.Prog.Clients) - 1; i >= 0; i-- {
			if f.Prog.Profile == "C19" || f.Prog.Profile == "C10" || len(f.Prog.Clients[i]) == 0 {
				// clients have a meaning by position: empty them
				if len(f.Prog.Clients[i]) > 0 {
					step(func(p *Program) bool { p.Clients[i] = nil; return true })
				}
				continue
			}
			step(func(p *Program) bool {
				p.Clients = append(p.Clients[:i:i], p.Clients[i+1:]...)
				return true
			})
		}
		// halves, then single calls, of the sequential parts
		for _, part := range []func(p *Program) *[]Op{func(p *Program) *[]Op { return &p.Setup }, func(p *Program) *[]Op { return &p.Post }} {
			for size := (len(*part(f.Prog)) + 1) / 2; size > 0; size /= 2 {
				for at := len(*part(f.Prog)) - size; at >= 0; at -= size {
					step(func(p *Program) bool {
						l := part(p)
						if at+size > len(*l) {
							return false
						}
						*l = append((*l)[:at:at], (*l)[at+size:]...)
						return true
					})
				}
			}
		}
		for i := range f.Prog.Clients {
			for k := len(f.Prog.Clients[i]) - 1; k >= 0; k-- {
				step(func(p *Program) bool {
					if i >= len(p.Clients) || k >= len(p.Clients[i]) {
						return false
					}
					p.Clients[i] = append(p.Clients[i][:k:k], p.Clients[i][k+1:]...)
					return true
				})
			}
		}
		for i := range f.Prog.Clients {
			for k := range f.Prog.Clients[i] {
				step(func(p *Program) bool {
					o := &p.Clients[i][k]
					ok := o.F != nil || o.Late != 0 || o.Scr || o.Sleep != 0
					o.F, o.Late, o.Scr, o.Sleep = nil, 0, false, 0
					return ok
				})
				step(func(p *Program) bool { o := &p.Clients[i][k]; ok := o.F != nil; o.F = nil; return ok })
				step(func(p *Program) bool { o := &p.Clients[i][k]; ok := o.Late != 0; o.Late = 0; return ok })
				step(func(p *Program) bool { o := &p.Clients[i][k]; ok := o.Scr; o.Scr = false; return ok })
			}
		}
		step(func(p *Program) bool { ok := p.Swap != 0; p.Swap = 0; return ok })
		step(func(p *Program) bool { ok := p.Wrap; p.Wrap = false; return ok })
		step(func(p *Program) bool { ok := p.Shared; p.Shared = false; return ok })
		step(func(p *Program) bool { ok := !p.Bare; p.Bare = true; return ok })
		step(func(p *Program) bool { ok := p.ScrTok; p.ScrTok = false; return ok })
		step(func(p *Program) bool { ok := p.Pipe != 0; p.Pipe = 0; return ok })
		step(func(p *Program) bool { ok := p.Yield; p.Yield = false; return ok })
	}
	// A schedule with few preemptions, if there is one.
	for i := 0; i < 400 && !f.Prog.Fair && time.Now().Before(stop); i++ {
		cfg := f.Cfg
		cfg.SchedSeed = rng.U64()
		switch i % 3 {
		case 0:
			cfg.Policy, cfg.SwitchP, cfg.StmtP = simrt.PolSticky, 0.05, 0
		case 1:
			cfg.Policy, cfg.StmtP = simrt.PolSerial, 0
		case 2:
			cfg.Policy, cfg.StmtP = simrt.PolSerial, 0.01
		}
		if g := fails(f.Prog, cfg); g != nil && len(g.Out.Res.Schedule) < len(f.Out.Res.Schedule) {
			g.Tries = f.Tries
			*f = *g
		}
	}
	// From here on the schedule is explicit.
	cfg := f.Cfg
	cfg.Replay, cfg.Schedule = true, append([]simrt.Override(nil), f.Out.Res.Schedule...)
	g := fails(f.Prog, cfg)
	if g == nil {
		return f // the caller reports it by seed
	}
	g.Tries = f.Tries
	*f = *g
	for size := (len(f.Cfg.Schedule) + 1) / 2; size > 0; size /= 2 {
		for again := true; again && time.Now().Before(stop.Add(3*time.Second)); {
			again = false
			for at := len(f.Cfg.Schedule) - size; at >= 0 && time.Now().Before(stop.Add(3*time.Second)); at -= size {
				if at+size > len(f.Cfg.Schedule) {
					continue
				}
				cfg := f.Cfg
				cfg.Schedule = append(append([]simrt.Override(nil), f.Cfg.Schedule[:at]...), f.Cfg.Schedule[at+size:]...)
				if g := fails(f.Prog, cfg); g != nil {
					g.Tries = f.Tries
					*f = *g
					again = true
				}
			}
			if size > 1 {
				break
			}
		}
	}
	return f
}
