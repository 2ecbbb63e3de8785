package harness

import (
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// A dictionary, as fuzzers have it: the numbers and short strings that the
// code under test is written with. Values, lengths and texts are sometimes
// drawn from it (and next to it), as thresholds and special cases sit there.
var dict struct {
	Ints  []int64
	Strs  []string
	sizes []int // of the numbers: those that can be sizes
	lens  []int // of these: the moderate ones
}

func init() {
	dict.Ints, dict.Strs = nil, nil
	if f := os.Getenv("VERIF_DICT"); f != "" { // that of a replay
		b, err := os.ReadFile(f)
		if err == nil {
			_ = json.Unmarshal(b, &dict)
		}
	} else {
		readDict()
	}
	if d := os.Getenv("VERIF_TMP"); d != "" {
		b, _ := json.Marshal(dict)
		_ = os.WriteFile(filepath.Join(d, "dict.json"), b, 0o666)
	}
	for _, v := range dict.Ints {
		if v >= 5 && v <= 1<<22 {
			dict.sizes = append(dict.sizes, int(v))
		}
		if v >= 5 && v <= 1<<13 {
			dict.lens = append(dict.lens, int(v))
		}
	}
	if len(dict.Ints) == 0 {
		dict.Ints = []int64{0}
	}
	if len(dict.Strs) == 0 {
		dict.Strs = []string{""}
	}
	if len(dict.lens) == 0 {
		dict.lens = []int{16}
	}
	if len(dict.sizes) == 0 {
		dict.sizes = []int{16}
	}
}

func readDict() {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	ints, strs := map[int64]bool{}, map[string]bool{}
	addInt := func(c constant.Value) {
		c = constant.ToInt(c)
		if c.Kind() != constant.Int {
			return
		}
		if v, ok := constant.Int64Val(c); ok {
			ints[v] = true
		} else if u, ok := constant.Uint64Val(c); ok {
			ints[int64(u)] = true
		}
	}
	var files []string
	for _, g := range []string{"*.go", "cmd/aminoscan/*.go"} {
		f, _ := filepath.Glob(filepath.Join(repo, g))
		files = append(files, f...)
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				if c := literal(x); c != nil {
					if c.Kind() == constant.String {
						if s := constant.StringVal(c); s != "" && len(s) <= 16 && !strings.Contains(s, "%") {
							strs[s] = true
						}
					} else {
						addInt(c)
					}
				}
			case *ast.BinaryExpr, *ast.UnaryExpr:
				if c := fold(x.(ast.Expr)); c != nil {
					addInt(c)
				}
			}
			return true
		})
	}
	for v := range ints {
		dict.Ints = append(dict.Ints, v)
	}
	for s := range strs {
		dict.Strs = append(dict.Strs, s)
	}
	sort.Slice(dict.Ints, func(i, j int) bool { return dict.Ints[i] < dict.Ints[j] })
	sort.Strings(dict.Strs)
}

func literal(x *ast.BasicLit) constant.Value {
	c := constant.MakeFromLiteral(x.Value, x.Kind, 0)
	if c.Kind() == constant.Unknown {
		return nil
	}
	return c
}

// fold computes a constant expression of numbers, nil if it isn't one.
func fold(e ast.Expr) constant.Value {
	switch x := e.(type) {
	case *ast.BasicLit:
		if c := literal(x); c != nil && c.Kind() != constant.String {
			return c
		}
	case *ast.ParenExpr:
		return fold(x.X)
	case *ast.UnaryExpr:
		if c := fold(x.X); c != nil && x.Op == token.SUB {
			return constant.UnaryOp(token.SUB, c, 0)
		}
	case *ast.BinaryExpr:
		a, b := fold(x.X), fold(x.Y)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			n, ok := constant.Uint64Val(constant.ToInt(b))
			if a = constant.ToInt(a); ok && n < 64 && a.Kind() == constant.Int {
				return constant.Shift(a, x.Op, uint(n))
			}
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(a, x.Op, b)
		}
	case *ast.SelectorExpr:
		if p, ok := x.X.(*ast.Ident); ok && p.Name == "math" {
			switch x.Sel.Name {
			case "MaxInt32":
				return constant.MakeInt64(math.MaxInt32)
			case "MaxInt64":
				return constant.MakeInt64(math.MaxInt64)
			case "MaxUint32":
				return constant.MakeInt64(math.MaxUint32)
			}
		}
	}
	return nil
}
