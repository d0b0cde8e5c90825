package harness

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/sonirico/visigoth"

	"vsim/simrt"
)

// HugeProgram is a program with one index of more documents than 16 bits can number.
func HugeProgram(profile string, seed uint64) *Program {
	r := NewRng(Mix(seed, HashString("huge"+profile)))
	return &Program{Profile: profile, Seed: seed, Repos: 1, Huge: 66600 + r.N(3000), Pipe: PipePlain}
}

func hugeWords(i, n int) string {
	s := "u" + strconv.Itoa(i)
	if i%1009 == 5 {
		s += " often"
	}
	if i < 5 || i >= n-20 {
		s += " ends"
	}
	return s
}

// huge loads one large index and compares searches of it with what was loaded.
func huge(w *world, p *Program) {
	w.open()
	repo := w.repos[0]
	n := p.Huge
	for i := 0; i < n; i++ {
		repo.Put("a", visigoth.NewDocRequestWith("id"+strconv.Itoa(i), "content "+strconv.Itoa(i), hugeWords(i, n)))
	}
	look := func(terms string, kind string, e visigoth.Engine, hits int, match func(i int) bool) {
		st, err := repo.Search("a", terms, e)
		if err != nil {
			w.bad("huge", fmt.Sprintf("%s search of %d documents for %q: %v", kind, n, terms, err))
			return
		}
		rows := 0
		if kind == "hits" { // the order of equally good documents is not specified
			seen := make([]bool, n)
			want := 0
			for i := 0; i < n; i++ {
				if match(i) {
					want++
				}
			}
			for st.Next() {
				r := st.Data()
				d := r.Doc()
				rows++
				i, err := strconv.Atoi(strings.TrimPrefix(d.Raw(), "content "))
				if err != nil || i < 0 || i >= n || seen[i] || !match(i) || d.ID() != "id"+strconv.Itoa(i) || r.Hits != hits {
					w.bad("huge", fmt.Sprintf("%s search of %d documents for %q: row %d is document %q with content %q and %d hits", kind, n, terms, rows, d.ID(), d.Raw(), r.Hits))
					return
				}
				seen[i] = true
			}
			if rows != want {
				w.bad("huge", fmt.Sprintf("%s search of %d documents for %q yields %d rows, not %d", kind, n, terms, rows, want))
			}
			return
		}
		for i := 0; i < n; i++ {
			if !match(i) {
				continue
			}
			rows++
			if !st.Next() {
				w.bad("huge", fmt.Sprintf("%s search of %d documents for %q ends before document %d", kind, n, terms, i))
				return
			}
			r := st.Data()
			if d := r.Doc(); d.ID() != "id"+strconv.Itoa(i) || d.Raw() != "content "+strconv.Itoa(i) || r.Hits != hits {
				w.bad("huge", fmt.Sprintf("%s search of %d documents for %q: row %d is document %q with content %q and %d hits, not document %d with %d", kind, n, terms, rows, d.ID(), d.Raw(), r.Hits, i, hits))
				return
			}
		}
		if st.Next() {
			w.bad("huge", fmt.Sprintf("%s search of %d documents for %q yields more than %d rows", kind, n, terms, rows))
		}
	}
	both := func(terms string, hits int, match func(i int) bool) {
		look(terms, "linear", visigoth.LinearSearch, hits, match)
		look(terms, "hits", visigoth.HitsSearch, hits, match)
	}
	ts := []*simrt.Task{
		simrt.GoClient("often", func() { both("often", 1, func(i int) bool { return i%1009 == 5 }) }),
		simrt.GoClient("ends", func() { both("ends", 1, func(i int) bool { return i < 5 || i >= n-20 }) }),
		simrt.GoClient("all", func() {
			look("often", "match-all", visigoth.NoopAllSearch, 0, func(i int) bool { return true })
		}),
		simrt.GoClient("single", func() {
			for _, k := range []int{0, 255, 256, 32767, 32768, 65535, 65536, n - 1} {
				both("u"+strconv.Itoa(k), 1, func(i int) bool { return i == k })
			}
			last := 5 + 1009*((n-6)/1009) // the last document with "often" in it
			for _, k := range []int{last, last - 1009, last - 1009*2, last - 1009*21, last - 1009*42, 5} {
				both("often u"+strconv.Itoa(k), 2, func(i int) bool { return i == k })
				both("u"+strconv.Itoa(k)+" often", 2, func(i int) bool { return i == k })
				both("ends u"+strconv.Itoa(k), 2, func(i int) bool { return i == k && (i < 5 || i >= n-20) })
			}
			for _, k := range []int{0, 3, n - 20, n - 7, n - 1} {
				both("ends u"+strconv.Itoa(k), 2, func(i int) bool { return i == k })
				both("u"+strconv.Itoa(k)+" ends", 2, func(i int) bool { return i == k })
			}
			for _, k := range []int{100, 65535 - n%100, 65537 + n%100} {
				both("u"+strconv.Itoa(k)+" u"+strconv.Itoa(k-65536), 2, func(i int) bool { return false })
			}
		}),
	}
	simrt.Join(ts)
}
