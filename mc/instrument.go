package main

// instrument writes a build overlay in which every statement of the library is preceded by a call of
// yield.Y, so that interleavings of concurrent calls can be explored at statement granularity.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func instrument(repo, out string) error {
	over := map[string]string{}
	n := 0
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(p)
		if fi.IsDir() {
			if p != repo && (strings.HasPrefix(base, ".") || base == "testdata" || base == "example" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") {
			return nil
		}
		if ok, err := build.Default.MatchFile(filepath.Dir(p), base); err != nil || !ok {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		var at []int
		add := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				default:
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			switch v := nd.(type) {
			case *ast.BlockStmt:
				add(v.List)
			case *ast.CaseClause:
				add(v.Body)
			case *ast.CommClause:
				add(v.Body)
			}
			return true
		})
		if len(at) == 0 {
			return nil
		}
		sort.Ints(at)
		var b strings.Builder
		end := fset.Position(f.Name.End()).Offset
		b.Write(src[:end])
		b.WriteString(`; import mcyield "mc/yield"`)
		last := end
		for _, o := range at {
			b.Write(src[last:o])
			b.WriteString("mcyield.Y(); ")
			last = o
		}
		b.Write(src[last:])
		q := filepath.Join(out, fmt.Sprintf("f%d.go", n))
		n++
		over[p] = q
		return os.WriteFile(q, []byte(b.String()), 0o600)
	})
	if err != nil {
		return err
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": over})
	return os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o600)
}
