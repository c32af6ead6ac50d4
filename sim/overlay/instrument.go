package overlay

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument rewrites the non-test sources of the library and of the
// command-line program: a simulator hook call before every statement
// (yield point, step counter, coverage), and the command's package clause
// changed so that the harness can link it.
func instrument(repo, target string, put func(orig, content string) error) error {
	site := 0
	for _, d := range []struct{ dir, pkg string }{{"", ""}, {"cmd/ofx", "ofxcli"}} {
		files, err := filepath.Glob(filepath.Join(repo, d.dir, "*.go"))
		if err != nil {
			return err
		}
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			out, err := rewrite(f, src, d.pkg, &site)
			if err != nil {
				return fmt.Errorf("%s: %w", f, err)
			}
			if err := put(filepath.Join(target, d.dir, filepath.Base(f)), out); err != nil {
				return err
			}
		}
		if d.pkg != "" {
			if err := put(filepath.Join(target, d.dir, "zsim_main.go"), "package "+d.pkg+"\n\n// Main runs the program.\nfunc Main() { main() }\n"); err != nil {
				return err
			}
		}
	}
	return nil
}

func rewrite(name string, src []byte, pkg string, site *int) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	// Insertions are made textually, at statement positions, so comments and
	// build constraints stay where they are.
	type ins struct {
		off  int
		text string
	}
	var list []ins
	add := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			*site++
			list = append(list, ins{fset.Position(s.Pos()).Offset, fmt.Sprintf("zsimhook.Y(%d); ", *site)})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Name.Name == "init" && x.Recv == nil {
				return false
			}
		case *ast.BlockStmt:
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	if len(list) > 0 {
		list = append(list, ins{fset.Position(f.Name.End()).Offset, "; import zsimhook \"verif/sim/simhook\""})
	}
	if pkg != "" {
		if f.Name.Name != "main" {
			return "", fmt.Errorf("package clause is %s, expected main", f.Name.Name)
		}
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var b bytes.Buffer
	at := 0
	if pkg != "" {
		o, e := fset.Position(f.Name.Pos()).Offset, fset.Position(f.Name.End()).Offset
		b.Write(src[:o])
		b.WriteString(pkg)
		at = e
	}
	for _, i := range list {
		b.Write(src[at:i.off])
		b.WriteString(i.text)
		at = i.off
	}
	b.Write(src[at:])
	if _, err := format.Source(b.Bytes()); err != nil {
		return "", fmt.Errorf("instrumented source does not parse: %w", err)
	}
	// Keep positions in panics and coverage pointing at the original file.
	return fmt.Sprintf("//line %s:1\n", name) + b.String(), nil
}
