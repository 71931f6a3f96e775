package run

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// costed are the packages whose steps are counted.
var costed = []string{"graphemes", "words", "sentences", "phrases", "internal/iterators", "internal/iterators/filter"}

// instrumented gives the repository's current files with a step counter in
// every loop and around what calls into the standard library go over.
func (c Config) instrumented() (map[string][]byte, error) {
	r := map[string][]byte{}
	for _, d := range costed {
		fs, err := filepath.Glob(filepath.Join(c.Repo, d, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			out, err := instrument(f, src)
			if err != nil {
				return nil, err
			}
			if out != nil {
				r[f] = out
			}
		}
	}
	return r, nil
}

func instrument(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	if err != nil {
		return nil, fmt.Errorf("instrumenting: %v", err)
	}
	type ins struct {
		at   int
		text string
	}
	var l []ins
	add := func(p token.Pos, s string) { l = append(l, ins{fset.Position(p).Offset, s}) }
	wrap := func(x ast.Expr) {
		add(x.Pos(), "zzcost.Cost(")
		add(x.End(), ")")
	}
	std := map[string]bool{}
	for _, im := range file.Imports {
		switch im.Path.Value {
		case `"bytes"`, `"strings"`:
			n := strings.Trim(im.Path.Value, `"`)
			if im.Name != nil {
				n = im.Name.Name
			}
			std[n] = true
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.ForStmt:
			add(v.Body.Lbrace+1, " zzcost.Tick();")
		case *ast.RangeStmt:
			add(v.Body.Lbrace+1, " zzcost.Tick();")
		case *ast.CallExpr:
			if len(v.Args) == 0 {
				break
			}
			switch f := v.Fun.(type) {
			case *ast.SelectorExpr:
				if x, ok := f.X.(*ast.Ident); ok && std[x.Name] {
					if _, lit := v.Args[0].(*ast.FuncLit); !lit {
						wrap(v.Args[0])
					}
				}
			case *ast.Ident:
				switch {
				case f.Name == "append" && v.Ellipsis.IsValid(), f.Name == "copy" && len(v.Args) == 2:
					wrap(v.Args[len(v.Args)-1])
				case f.Name == "string" && len(v.Args) == 1:
					wrap(v.Args[0])
				}
			case *ast.ArrayType:
				if f.Len == nil && len(v.Args) == 1 {
					if e, ok := f.Elt.(*ast.Ident); ok && (e.Name == "byte" || e.Name == "rune") {
						if id, ok := v.Args[0].(*ast.Ident); !ok || id.Name != "nil" {
							wrap(v.Args[0])
						}
					}
				}
			}
		}
		return true
	})
	if len(l) == 0 {
		return nil, nil
	}
	add(file.Name.End(), "; import zzcost \""+Module+"/internal/vcost\"")
	sort.SliceStable(l, func(i, j int) bool { return l[i].at < l[j].at })
	var b []byte
	p := 0
	for _, x := range l {
		b = append(append(b, src[p:x.at]...), x.text...)
		p = x.at
	}
	return append(b, src[p:]...), nil
}
