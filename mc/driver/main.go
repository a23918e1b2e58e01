// driver runs the generator of /repo on a list of jobs, one after another in
// one process.  Protocol: each argument is "in:out[:name=path,...]".
// For every job it prints "OK <out>" or "PANIC <out> <message>" /
// "ERROR <out> <message>" on stdout.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/iv-menshenin/valyjson/generator"
)

func job(spec string) {
	p := strings.Split(spec, ":")
	in, out := p[0], p[1]
	var internals []string
	if len(p) > 2 && p[2] != "" {
		for _, kv := range strings.Split(p[2], ",") {
			i := strings.Index(kv, "=")
			internals = append(internals, kv[:i], kv[i+1:])
		}
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("PANIC %s %s\n", out, oneLine(r))
		}
	}()
	g := generator.New(in)
	if err := g.Parse(); err != nil {
		fmt.Printf("ERROR %s %s\n", out, oneLine(err))
		return
	}
	g.BuildDecoders()
	g.BuildEncoders()
	g.FixImports(internals...)
	g.Print(out)
	fmt.Printf("OK %s\n", out)
}

func oneLine(v any) string {
	return strings.ReplaceAll(fmt.Sprint(v), "\n", " ")
}

// begin and end enclose the work of the generator; see mapctl.go.
var begin, end = func() {}, func() {}

func main() {
	begin()
	defer end()
	for _, a := range os.Args[1:] {
		job(a)
	}
}
