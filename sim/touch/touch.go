// Package touch reads and changes values the code under test returned, as a caller would. It is
// compiled with race instrumentation.
package touch

import "github.com/sonirico/visigoth"

// Strings reads every element and returns a copy.
func Strings(l []string) []string {
	out := make([]string, len(l))
	for i := range l {
		out[i] = l[i]
	}
	return out
}

// Ints reads every element and returns a copy.
func Ints(l []int) []int {
	out := make([]int, len(l))
	for i := range l {
		out[i] = l[i]
	}
	return out
}

// ScribbleStrings overwrites every element and the spare capacity.
func ScribbleStrings(l []string) {
	for i := range l {
		l[i] = "scribbled"
	}
	n := cap(l) - len(l)
	for i := 0; i < n; i++ {
		l = append(l, "appended")
	}
}

// ScribbleInts overwrites every element and the spare capacity.
func ScribbleInts(l []int) {
	for i := range l {
		l[i] = 0
	}
	n := cap(l) - len(l)
	for i := 0; i < n; i++ {
		l = append(l, 0)
	}
}

// Rows reads every row and returns a deep copy.
func Rows(l []visigoth.AliasesResultRow) []visigoth.AliasesResultRow {
	out := make([]visigoth.AliasesResultRow, len(l))
	for i := range l {
		out[i].Alias = l[i].Alias
		out[i].Indices = Strings(l[i].Indices)
	}
	return out
}

// ScribbleRows overwrites every row and every list of indices in it; it returns the alias whose
// list changed although only the list of an earlier row was written to and appended to.
func ScribbleRows(l []visigoth.AliasesResultRow) (changed string, ok bool) {
	was := Rows(l)
	for i := range l {
		ScribbleStrings(l[i].Indices)
		l[i].Alias = "scribbled"
		l[i].Indices = nil
		for j := i + 1; j < len(l) && !ok; j++ {
			for k := range was[j].Indices {
				if l[j].Indices[k] != was[j].Indices[k] {
					changed, ok = was[j].Alias, true
				}
			}
		}
	}
	return
}

// Results reads every result and returns a copy.
func Results(l []visigoth.SearchResult) []visigoth.SearchResult {
	out := make([]visigoth.SearchResult, len(l))
	for i := range l {
		out[i] = l[i]
	}
	return out
}

// ScribbleResults overwrites every result and the spare capacity.
func ScribbleResults(l []visigoth.SearchResult) {
	for i := range l {
		l[i] = visigoth.SearchResult{Document: visigoth.NewDoc("scribbled", "scribbled"), Hits: -1}
	}
	n := cap(l) - len(l)
	for i := 0; i < n; i++ {
		l = append(l, visigoth.SearchResult{})
	}
}
