package eng

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Dict holds the literals of the checked source code. They only bias the
// generators (as a fuzzing dictionary does); no verdict depends on them.
type Dict struct {
	Ints []uint64
	Strs []string
}

var dictOnce sync.Once
var dict Dict

// TheDict parses the non-test sources once.
func TheDict() *Dict {
	dictOnce.Do(func() {
		ints, strs := map[uint64]bool{}, map[string]bool{}
		fset := token.NewFileSet()
		filepath.WalkDir(Cfg.Repo, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return nil
			}
			if d.IsDir() {
				if strings.HasPrefix(d.Name(), ".") && p != Cfg.Repo {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			f, err := parser.ParseFile(fset, p, nil, parser.SkipObjectResolution)
			if err != nil {
				return nil
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.Field:
					if x.Tag != nil {
						x.Tag = nil
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						if v, err := strconv.ParseUint(strings.ReplaceAll(x.Value, "_", ""), 0, 64); err == nil {
							ints[v] = true
						}
					case token.CHAR:
						if r, _, _, err := strconv.UnquoteChar(x.Value[1:], '\''); err == nil {
							ints[uint64(r)] = true
							strs[string(r)] = true
						}
					case token.STRING:
						if s, err := strconv.Unquote(x.Value); err == nil && len(s) <= 64 && !strings.Contains(s, "\n") {
							strs[s] = true
						}
					}
				case *ast.BinaryExpr:
					// constants written as shifts or products
					if v, ok := constVal(x); ok {
						ints[v] = true
					}
				}
				return true
			})
			return nil
		})
		for v := range ints {
			dict.Ints = append(dict.Ints, v)
		}
		for s := range strs {
			dict.Strs = append(dict.Strs, s)
		}
		sort.Slice(dict.Ints, func(i, j int) bool { return dict.Ints[i] < dict.Ints[j] })
		sort.Strings(dict.Strs)
		if len(dict.Ints) == 0 {
			dict.Ints = []uint64{0, 1}
		}
		if len(dict.Strs) == 0 {
			dict.Strs = []string{""}
		}
	})
	return &dict
}

func constVal(e ast.Expr) (uint64, bool) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return constVal(x.X)
	case *ast.BasicLit:
		if x.Kind == token.INT {
			v, err := strconv.ParseUint(strings.ReplaceAll(x.Value, "_", ""), 0, 64)
			return v, err == nil
		}
	case *ast.BinaryExpr:
		a, ok := constVal(x.X)
		b, ok2 := constVal(x.Y)
		if !ok || !ok2 {
			return 0, false
		}
		switch x.Op {
		case token.SHL:
			return a << (b & 63), true
		case token.MUL:
			return a * b, true
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		case token.OR:
			return a | b, true
		}
	}
	return 0, false
}
