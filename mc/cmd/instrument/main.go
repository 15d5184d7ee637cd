// Command instrument writes an instrumented copy of the repository's packages and an
// overlay that builds it: a call vsched.P(id) before every statement, and the package
// vsync in place of sync. It works on the syntax tree's positions only, so it does not
// depend on how the code is written.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	points := flag.Bool("points", true, "insert scheduling points")
	shim := flag.Bool("shim", true, "replace sync")
	flag.Parse()
	overlay := map[string]string{}
	var table []string
	var dirs []string
	filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			b := filepath.Base(p)
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	sort.Strings(dirs)
	for _, d := range dirs {
		ents, _ := os.ReadDir(d)
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(d, n); err != nil || !ok {
				continue
			}
			src, err := os.ReadFile(filepath.Join(d, n))
			if err != nil {
				fatal(err)
			}
			rel, _ := filepath.Rel(*repo, filepath.Join(d, n))
			got, err := instrument(rel, src, *points, *shim, &table)
			if err != nil {
				fatal(err)
			}
			dst := filepath.Join(*out, "src", strings.ReplaceAll(rel, "/", "__"))
			os.MkdirAll(filepath.Dir(dst), 0755)
			if err := os.WriteFile(dst, got, 0644); err != nil {
				fatal(err)
			}
			overlay[filepath.Join(d, n)] = dst
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		fatal(err)
	}
	b, _ = json.Marshal(table)
	if err := os.WriteFile(filepath.Join(*out, "points.json"), b, 0644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instrument:", err)
	os.Exit(2)
}

type edit struct {
	off, end int
	text     string
}

func instrument(rel string, src []byte, points, shim bool, table *[]string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	n := 0
	if points {
		fn := "init"
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				id := len(*table)
				*table = append(*table, fmt.Sprintf("%s:%d %s", rel, fset.Position(s.Pos()).Line, fn))
				edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "_vs.P(" + strconv.Itoa(id) + ");"})
				n++
			}
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				fn = fd.Name.Name
			} else {
				fn = "package"
			}
			ast.Inspect(d, func(x ast.Node) bool {
				switch b := x.(type) {
				case *ast.BlockStmt:
					// the body of switch and select statements holds clauses, not statements
					if len(b.List) > 0 {
						switch b.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					list(b.List)
				case *ast.CaseClause:
					list(b.Body)
				case *ast.CommClause:
					list(b.Body)
				}
				return true
			})
		}
	}
	if shim {
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				text := `"verif/mc/vsched/vsync"`
				if im.Name == nil {
					text = "sync " + text
				}
				edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), text})
			}
		}
	}
	if n > 0 {
		edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), `;import _vs "verif/mc/vsched"`})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out []byte
	last := 0
	for _, e := range edits {
		out = append(out, src[last:e.off]...)
		out = append(out, e.text...)
		last = e.end
	}
	out = append(out, src[last:]...)
	return out, nil
}
