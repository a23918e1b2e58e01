package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"verifmc/corpus"
)

// explore OUTDIR DRIVER: one package per shape, prints status
func main() {
	dir, driver := os.Args[1], os.Args[2]
	shapes := corpus.Universe()
	type res struct{ gen, build string }
	results := make([]res, len(shapes))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	os.MkdirAll(filepath.Join(dir, "ext"), 0o755)
	os.WriteFile(filepath.Join(dir, "ext", "ext.go"), []byte(corpus.ExtSource), 0o644)
	out, _ := exec.Command(driver, filepath.Join(dir, "ext", "ext.go")+":"+filepath.Join(dir, "ext", "ext_json.go")).CombinedOutput()
	fmt.Fprintln(os.Stderr, string(out))
	for i, s := range shapes {
		d := filepath.Join(dir, strings.ToLower(s.ID))
		d = filepath.Join(dir, s.ID)
		os.MkdirAll(d, 0o755)
		os.WriteFile(filepath.Join(d, "types.go"), []byte(corpus.Source("q", []corpus.Shape{s})), 0o644)
		os.WriteFile(filepath.Join(d, "go.mod"), []byte("module corpus\n"), 0o644)
		if strings.Contains(s.Decl, "ext.") {
			os.MkdirAll(filepath.Join(d, "ext"), 0o755)
			os.WriteFile(filepath.Join(d, "ext", "ext.go"), []byte(corpus.ExtSource), 0o644)
		}
		_ = i
	}
	for i, s := range shapes {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, s corpus.Shape) {
			defer func() { <-sem; wg.Done() }()
			d := filepath.Join(dir, s.ID)
			out, err := exec.Command(driver, filepath.Join(d, "types.go")+":"+filepath.Join(d, "types_json.go")).CombinedOutput()
			results[i].gen = strings.TrimSpace(string(out))
			os.RemoveAll(filepath.Join(d, "go.mod"))
			os.RemoveAll(filepath.Join(d, "ext"))
			if err != nil {
				results[i].gen += " EXIT " + err.Error()
			}
		}(i, s)
	}
	wg.Wait()
	for i, s := range shapes {
		st := "ok"
		if !strings.HasPrefix(results[i].gen, "OK ") {
			st = "GEN " + results[i].gen
			os.RemoveAll(filepath.Join(dir, s.ID))
		}
		fmt.Printf("%s\t%s\t%s\n", s.ID, s.Desc, st)
	}
}
