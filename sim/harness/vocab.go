// Package harness holds the workloads, the reference model and the oracles. It is compiled
// without race instrumentation, like the simulator: it must not order the program's accesses.
package harness

import (
	"strings"
	"unicode"
)

// Pipelines under test.
const (
	PipePlain = iota // alphanumeric tokenizer only
	PipeLower
	PipeStop
	PipeFull // tokenizer, lower-casing, stop words, Spanish stemmer
	numPipes
)

var pipeNames = [...]string{"alphanumeric", "alphanumeric+lower", "alphanumeric+lower+stop", "alphanumeric+lower+stop+stem"}

// vocab: surface forms by word group, with the Spanish stem of the lower-cased form. It is
// the reference for the analysis chain, written down independently of the code.
type word struct{ form, lower, stem string }

var vocabGroups = [][]word{
	{{"curso", "curso", "curs"}, {"Curso", "curso", "curs"}, {"CURSOS", "cursos", "curs"}, {"cursos", "cursos", "curs"}},
	{{"java", "java", "jav"}, {"Java", "java", "jav"}, {"JAVA", "java", "jav"}},
	{{"programación", "programación", "program"}, {"Programaciones", "programaciones", "program"}, {"PROGRAMACIÓN", "programación", "program"}},
	{{"perro", "perro", "perr"}, {"Perros", "perros", "perr"}, {"perra", "perra", "perr"}},
	{{"cantar", "cantar", "cant"}, {"cantando", "cantando", "cant"}, {"Cantaba", "cantaba", "cant"}},
	{{"go", "go", "go"}, {"GO", "go", "go"}, {"Go", "go", "go"}},
	{{"libro", "libro", "libr"}, {"libros", "libros", "libr"}, {"Libre", "libre", "libr"}},
	{{"árbol", "árbol", "arbol"}, {"Árboles", "árboles", "arbol"}, {"ÁRBOL", "árbol", "arbol"}},
	{{"ñandú", "ñandú", "ñandu"}, {"ÑANDÚ", "ñandú", "ñandu"}},
	{{"web", "web", "web"}, {"Web", "web", "web"}},
	{{"x", "x", "x"}, {"X", "x", "x"}},
	{{"datos", "datos", "dat"}, {"dato", "dato", "dat"}},
	{{"7", "7", "7"}, {"07", "07", "07"}, {"007", "007", "007"}, {"70", "70", "70"}},
	{{"日本", "日本", "日本"}, {"日本語", "日本語", "日本語"}, {"日", "日", "日"}},
	{{"Ψ", "ψ", "ψ"}, {"ψψ", "ψψ", "ψψ"}, {"𝒳𝒴", "𝒳𝒴", "𝒳𝒴"}, {"𝒳", "𝒳", "𝒳"}},
}

// very long words, used now and then
var longGroups = [][]word{
	same(strings.Repeat("q", 40)+"1", strings.Repeat("q", 40)+"2", strings.Repeat("q", 40)),
	same(strings.Repeat("q", 300), strings.Repeat("q", 299)+"k", "k"+strings.Repeat("q", 299), strings.Repeat("q", 301)),
}

// letters that are special when lower-cased, used now and then
var oddGroups = [][]word{
	{{"ß", "ß", "ß"}, {"ẞ", "ß", "ß"}, {"ss", "ss", "ss"}},
	{{"Σ", "σ", "σ"}, {"ς", "ς", "ς"}, {"σ", "σ", "σ"}},
	{{"ǅ", "ǆ", "ǆ"}, {"Ǆ", "ǆ", "ǆ"}, {"dž", "dž", "dž"}},
	{{"K", "k", "k"}, {"K", "k", "k"}, {"k", "k", "k"}},
	{{"Ⱥ", "ⱥ", "ⱥ"}, {"ⱥ", "ⱥ", "ⱥ"}, {"ª", "ª", "ª"}},
	{{"İ", "i", "i"}, {"ı", "ı", "ı"}, {"ſ", "ſ", "ſ"}},
}

func same(forms ...string) (g []word) {
	for _, f := range forms {
		g = append(g, word{f, f, f})
	}
	return g
}

var stopForms = []string{"de", "la", "El", "en", "que", "Y", "los"}

var stopSet = map[string]bool{"de": true, "la": true, "el": true, "en": true, "que": true, "y": true, "los": true}

var stems = func() map[string]string {
	m := map[string]string{}
	for _, l := range [][][]word{vocabGroups, longGroups, oddGroups} {
		for _, g := range l {
			for _, w := range g {
				m[w.lower] = w.stem
			}
		}
	}
	return m
}()

var unknownWords = []string{"inexistente", "zzz", "77777"}

// Reference stems of the words no document holds.
func init() {
	stems["inexistente"] = "inexistent"
	stems["zzz"] = "zzz"
}

// RefTokens is the reference analysis of a text made of the vocabulary.
func RefTokens(pipe int, text string) []string {
	var out []string
	for _, f := range strings.FieldsFunc(text, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsNumber(r) }) {
		if pipe >= PipeLower {
			f = strings.ToLower(f)
		}
		if pipe >= PipeStop && stopSet[f] {
			continue
		}
		if pipe >= PipeFull {
			if s, ok := stems[f]; ok {
				f = s
			}
		}
		out = append(out, f)
	}
	return out
}

var separators = []string{" ", " ", " ", ", ", "  ", "-", "/", "\n", "; ¿"}
