// Command yieldgen writes a build overlay in which a scheduling point precedes
// every statement of the chosen packages, so that the monitors can explore
// interleavings the Go scheduler would rarely produce. The semantics of the
// code stay as they are, and line numbers are preserved.
//
// usage: yieldgen REPO OUTDIR OVERLAY.json PKGDIR...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hookPkg = "github.com/hyperonym/ratus/internal/verifyield"

const hookSrc = `// Package verifyield exists only in instrumented builds.
package verifyield

import "sync/atomic"

// Hook is called at every scheduling point when set.
var Hook atomic.Pointer[func()]

// P is a scheduling point.
func P() {
	if f := Hook.Load(); f != nil {
		(*f)()
	}
}
`

func main() {
	repo, out, ov := os.Args[1], os.Args[2], os.Args[3]
	rep := map[string]string{}
	must(os.RemoveAll(out))
	must(os.MkdirAll(out, 0o755))
	n := 0
	for _, dir := range os.Args[4:] {
		files, err := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		must(err)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, "testsuite.go") {
				continue
			}
			src, err := os.ReadFile(f)
			must(err)
			res, k := instrument(f, src)
			if k == 0 {
				continue
			}
			n += k
			p := filepath.Join(out, fmt.Sprintf("f%d.go", len(rep)))
			must(os.WriteFile(p, res, 0o644))
			rep[f] = p
		}
	}
	p := filepath.Join(out, "hook.go")
	must(os.WriteFile(p, []byte(hookSrc), 0o644))
	rep[filepath.Join(repo, "internal", "verifyield", "verifyield.go")] = p
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	must(os.WriteFile(ov, b, 0o644))
	fmt.Println("scheduling points:", n)
}

func instrument(name string, src []byte) ([]byte, int) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		// Left to the compiler.
		return src, 0
	}
	var at []int
	add := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			at = append(at, fs.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.FuncDecl:
			if v.Name.Name == "init" && v.Recv == nil {
				return false
			}
		case *ast.BlockStmt:
			add(v.List)
		case *ast.CaseClause:
			add(v.Body)
		case *ast.CommClause:
			add(v.Body)
		}
		return true
	})
	if len(at) == 0 {
		return src, 0
	}
	sort.Ints(at)
	var o []byte
	last := 0
	// The import goes right after the package clause, on the same line.
	pk := fs.Position(f.Name.End()).Offset
	o = append(o, src[:pk]...)
	o = append(o, fmt.Sprintf("; import verifyield %q", hookPkg)...)
	last = pk
	prev := -1
	for _, p := range at {
		if p == prev {
			continue
		}
		prev = p
		o = append(o, src[last:p]...)
		o = append(o, "verifyield.P();"...)
		last = p
	}
	o = append(o, src[last:]...)
	return o, len(at)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
