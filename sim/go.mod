module vsim

go 1.23

require (
	github.com/sonirico/vago v0.6.1
	github.com/sonirico/visigoth v0.0.0
)

require (
	github.com/josharian/intern v1.0.0 // indirect
	github.com/kljensen/snowball v0.10.0 // indirect
	github.com/mailru/easyjson v0.9.0 // indirect
)

replace github.com/sonirico/visigoth => /repo
