// Command mkyield copies the engines of rodkina with a call of zzyield.Y
// before every statement, so that the simulator can switch there.
//
// usage: mkyield REPO OUT
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const pkg = "github.com/steve-care-software/rodkina/zz_verif/zzyield"

func main() {
	repo, out := os.Args[1], os.Args[2]
	files := 0
	err := filepath.Walk(filepath.Join(repo, "libs"), func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if info.IsDir() {
			databases := filepath.Join("libs", "databases")
			if strings.HasPrefix(rel, databases+string(filepath.Separator)) && !strings.HasPrefix(rel, filepath.Join(databases, "domain")) {
				return filepath.SkipDir // its schedule is that of its system calls
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		text, ok, err := instrument(path)
		if err != nil || !ok {
			return err
		}
		files++
		to := filepath.Join(out, rel)
		if err := os.MkdirAll(filepath.Dir(to), 0755); err != nil {
			return err
		}
		return os.WriteFile(to, text, 0644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "mkyield:", err)
		os.Exit(1)
	}
}

func instrument(path string) ([]byte, bool, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, false, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false, nil // the compiler will say so
	}
	at := []int{}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			at = append(at, fset.PositionFor(s.Pos(), false).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.BlockStmt:
			if !clauses(v.List) {
				list(v.List)
			}
		case *ast.CaseClause:
			list(v.Body)
		case *ast.CommClause:
			list(v.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil, false, nil
	}
	sort.Ints(at)
	end := fset.PositionFor(f.Name.End(), false).Offset
	var b strings.Builder
	b.Write(src[:end])
	b.WriteString("; import zzyield \"" + pkg + "\"")
	last := end
	for _, o := range at {
		b.Write(src[last:o])
		b.WriteString("zzyield.Y(); ")
		last = o
	}
	b.Write(src[last:])
	return []byte(b.String()), true, nil
}

// clauses tells whether a block is the body of a switch or select.
func clauses(l []ast.Stmt) bool {
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return true
		}
	}
	return false
}
