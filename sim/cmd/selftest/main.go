// selftest checks the source rewriter and the simulator against the Go runtime.
//
//	selftest native             runs every scenario once, natively (built without the rewriter)
//	selftest simulated FILE     runs them on many seeds inside the simulator, compares with FILE
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"vsim/selftest"
	"vsim/simrt"
)

func names(m map[string]func() string) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// what must be found among the outcomes of the schedule-dependent scenarios, on some seed; nothing else may.
var want = map[string][]string{
	"lost-update":       {"1", "2"},
	"select-choice":     {"a", "b"},
	"map-order":         {"x", "y", "z"},
	"timeout-or-answer": {"answer", "timeout"},
	"writer-preference": {"done", "!deadlock"},
	"lock-order":        {"done", "!deadlock"},
	"crash":             {"done", "!crash"},
	"double-unlock":     {"!crash"},
	"spin-forever":      {"!livelock"},
}

func run(seed int, f func() string) (string, *simrt.Result) {
	out := ""
	cfg := simrt.Config{SchedSeed: uint64(seed) * 7919, EnvSeed: uint64(seed) * 104729, Policy: seed % simrt.NumPolicies, SwitchP: 0.3, PCTDepth: 3, MaxPts: 30000, UnfairPts: 3000}
	if seed%3 == 0 {
		cfg.StmtP = 0.1
	}
	r := simrt.Run(cfg, func() { out = f() })
	if r.Fail != nil {
		out = "!" + strings.SplitN(r.Fail.Kind, ":", 2)[0]
	}
	// The recorded schedule must give the same run again.
	again := ""
	cfg.Replay, cfg.Schedule = true, r.Schedule
	r2 := simrt.Run(cfg, func() { again = f() })
	if r2.Fail != nil {
		again = "!" + r2.Fail.Kind
	}
	if out != again && out != "!livelock" || (r2.Stats.Interleaving != r.Stats.Interleaving && out != "!livelock") {
		fmt.Printf("replay differs: %q %q\n", out, again)
		os.Exit(1)
	}
	return out, r
}

func main() {
	if os.Args[1] == "native" {
		res := map[string]string{}
		for _, n := range names(selftest.Scenarios) {
			res[n] = selftest.Scenarios[n]()
		}
		json.NewEncoder(os.Stdout).Encode(res)
		return
	}
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	native := map[string]string{}
	if err := json.Unmarshal(b, &native); err != nil {
		panic(err)
	}
	bad := 0
	for _, n := range names(selftest.Scenarios) {
		for seed := 1; seed <= 300 && bad < 20; seed++ {
			got, r := run(seed, selftest.Scenarios[n])
			if got != native[n] {
				bad++
				msg := ""
				if r.Fail != nil {
					msg = r.Fail.Msg
				}
				fmt.Printf("%s, seed %d: simulated %q, native %q\n%s\n", n, seed, got, native[n], msg)
				break
			}
		}
	}
	for _, n := range names(selftest.Varied) {
		seen := map[string]int{}
		max := 300
		if n == "spin-forever" {
			max = 3
		}
		for seed := 1; seed <= max; seed++ {
			got, _ := run(seed, selftest.Varied[n])
			seen[got]++
		}
		var got []string
		for k := range seen {
			got = append(got, k)
		}
		sort.Strings(got)
		w := append([]string{}, want[n]...)
		sort.Strings(w)
		if strings.Join(got, " ") != strings.Join(w, " ") {
			bad++
			fmt.Printf("%s: outcomes %v, want %v\n", n, seen, w)
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
	fmt.Printf("selftest: %d scenarios as in the Go runtime on 300 schedules each, %d schedule-dependent ones with all their outcomes\n", len(selftest.Scenarios), len(selftest.Varied))
}
