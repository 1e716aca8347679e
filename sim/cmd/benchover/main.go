// Command benchover adds /repo's main package to a build overlay as package verif/sim/bench.
//
//	benchover OUTDIR   (OUTDIR/overlay.json is extended)
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "benchover:", err)
		os.Exit(1)
	}
}

func list(pkg string, v any) {
	cmd := exec.Command(goCmd(), "list", "-json=Dir,GoFiles,Name", pkg)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	die(err)
	die(json.Unmarshal(b, v))
}

func goCmd() string {
	if g := os.Getenv("VERIF_GO"); g != "" {
		return g
	}
	return "/usr/local/bin/go1.23"
}

func main() {
	out := os.Args[1]
	var root, bench struct {
		Dir, Name string
		GoFiles   []string
	}
	list("github.com/succinctlabs/gnark-plonky2-verifier", &root)
	list("verif/sim/bench", &bench)
	if root.Name != "main" {
		die(fmt.Errorf("package %s is not a command", root.Name))
	}
	var ov struct{ Replace map[string]string }
	path := filepath.Join(out, "overlay.json")
	if b, err := os.ReadFile(path); err == nil {
		die(json.Unmarshal(b, &ov))
	}
	if ov.Replace == nil {
		ov.Replace = map[string]string{}
	}
	for i, f := range root.GoFiles {
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, filepath.Join(root.Dir, f), nil, parser.ParseComments)
		die(err)
		a.Name.Name = "bench"
		for _, im := range a.Imports {
			if im.Path.Value == `"github.com/consensys/gnark/frontend"` {
				im.Path.Value = `"verif/sim/simfrontend"`
				if im.Name == nil {
					im.Name = ast.NewIdent("frontend")
				}
			}
		}
		var b bytes.Buffer
		die(printer.Fprint(&b, fset, a))
		name := fmt.Sprintf("bench_%d.go", i)
		die(os.WriteFile(filepath.Join(out, name), b.Bytes(), 0o644))
		ov.Replace[filepath.Join(bench.Dir, "zz_"+strings.TrimSuffix(f, ".go")+".go")] = filepath.Join(out, name)
	}
	die(os.WriteFile(filepath.Join(out, "entry.go"), []byte("package bench\n\nfunc Main() { main() }\n"), 0o644))
	ov.Replace[filepath.Join(bench.Dir, "zz__entry.go")] = filepath.Join(out, "entry.go")
	waitForQk(out, ov.Replace)
	b, _ := json.MarshalIndent(ov, "", " ")
	die(os.WriteFile(path, b, 0o644))
}

// waitForQk makes gnark's PLONK prover wait for a polynomial that one of its goroutines completes. gnark 0.9.1 forgets
// to, so that on a busy machine and for circuits as small as the one proved here it dies of a nil pointer now and then.
func waitForQk(out string, replace map[string]string) {
	var pkg struct{ Dir string }
	list("github.com/consensys/gnark/backend/plonk/bn254", &pkg)
	src := filepath.Join(pkg.Dir, "prove.go")
	b, err := os.ReadFile(src)
	if err != nil || strings.Contains(string(b), "<-s.chQk") {
		return
	}
	const at = "\n\t<-s.chNumeratorInit\n"
	s := strings.Replace(string(b), at, at+`
	select {
	case <-s.ctx.Done():
		return nil, errContextDone
	case <-s.chQk:
	}
`, 1)
	die(os.WriteFile(filepath.Join(out, "prove.go"), []byte(s), 0o644))
	replace[src] = filepath.Join(out, "prove.go")
}
