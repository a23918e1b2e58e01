module verifdriver

go 1.24

require github.com/iv-menshenin/valyjson v0.0.0

require (
	github.com/iv-menshenin/go-ast v0.0.3 // indirect
	golang.org/x/mod v0.7.0 // indirect
)

replace github.com/iv-menshenin/valyjson => /repo
