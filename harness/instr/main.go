// instr writes an instrumented copy of the packages under a module directory and the overlay file that makes the go
// command compile it in place of the originals: a yield point before every statement, and package sync replaced.
//
//	instr -src /repo -out DIR [-nopoints]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	del  int
	text string
}

func main() {
	src := flag.String("src", "/repo", "")
	out := flag.String("out", "", "")
	nopoints := flag.Bool("nopoints", false, "")
	flag.Parse()
	over := map[string]string{}
	id := 0
	must(filepath.Walk(*src, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(path)
		if fi.IsDir() {
			if path != *src && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(path)
		must(err)
		text, n, err := instrument(path, b, id, !*nopoints)
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			return nil // left as it is: the compiler reports what is wrong with it
		}
		id += n
		dst := filepath.Join(*out, fmt.Sprintf("%03d_%s", len(over), base))
		must(os.WriteFile(dst, text, 0o644))
		over[path] = dst
		return nil
	}))
	j, _ := json.MarshalIndent(map[string]any{"Replace": over}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
	fmt.Println(id, "points in", len(over), "files")
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func instrument(path string, b []byte, id int, points bool) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	var list []ins
	n := 0
	add := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			list = append(list, ins{off: off(s.Pos()), text: fmt.Sprintf("vp__.P(%d); ", id+n)})
			n++
		}
	}
	// A loop with an empty body gets a point too, so that it counts as steps.
	empty := func(b *ast.BlockStmt) {
		if len(b.List) == 0 {
			list = append(list, ins{off: off(b.Lbrace) + 1, text: fmt.Sprintf(" vp__.P(%d); ", id+n)})
			n++
		}
	}
	if points {
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BlockStmt:
				add(x.List)
			case *ast.ForStmt:
				empty(x.Body)
			case *ast.RangeStmt:
				empty(x.Body)
			case *ast.CaseClause:
				add(x.Body)
			case *ast.CommClause:
				add(x.Body)
			}
			return true
		})
	}
	if n > 0 {
		list = append(list, ins{off: off(f.Name.End()), text: `; import vp__ "verif.local/h/vsched"`})
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			name := ""
			if im.Name == nil {
				name = "sync "
			}
			list = append(list, ins{off: off(im.Path.Pos()), del: len(im.Path.Value), text: name + `"verif.local/h/vsync"`})
		}
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var o []byte
	at := 0
	for _, x := range list {
		o = append(o, b[at:x.off]...)
		o = append(o, x.text...)
		at = x.off + x.del
	}
	o = append(o, b[at:]...)
	if _, err := parser.ParseFile(token.NewFileSet(), path, o, 0); err != nil {
		return nil, 0, err
	}
	return o, n, nil
}
