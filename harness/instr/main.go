// instr OVERLAY OUTDIR: extends a build overlay with instrumented copies of every
// non-test source file of /repo: a call of the scheduling hook before every statement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// repo is the tree under test.
var repo = func() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}()

func main() {
	ov, out := os.Args[1], os.Args[2]
	var o struct{ Replace map[string]string }
	b, err := os.ReadFile(ov)
	must(err)
	must(json.Unmarshal(b, &o))
	pkgs := map[string]string{}
	stmts := 0
	must(filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		var at []int
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				at = append(at, fs.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
		sort.Ints(at)
		var w strings.Builder
		last := 0
		for _, a := range at {
			w.Write(src[last:a])
			w.WriteString("zzp(); ")
			last = a
		}
		w.Write(src[last:])
		stmts += len(at)
		rel, _ := filepath.Rel(repo, p)
		dst := filepath.Join(out, rel)
		must(os.MkdirAll(filepath.Dir(dst), 0o755))
		must(os.WriteFile(dst, []byte(w.String()), 0o644))
		o.Replace[p] = dst
		pkgs[filepath.Dir(p)] = f.Name.Name
		return nil
	}))
	for d, n := range pkgs {
		rel, _ := filepath.Rel(repo, d)
		dst := filepath.Join(out, rel, "zz_point.go")
		must(os.WriteFile(dst, []byte(fmt.Sprintf(`package %s

import "github.com/takakv/msc-poc/zzverif/pt"

func zzp() {
	if pt.P != nil {
		pt.P()
	}
}
`, n)), 0o644))
		o.Replace[filepath.Join(d, "zz_point.go")] = dst
	}
	j, _ := json.Marshal(o)
	must(os.WriteFile(ov, j, 0o644))
	fmt.Fprintln(os.Stderr, "instrumented statements:", stmts)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
