package main

import (
	"encoding/hex"
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
)

// dict writes the constants that occur in the sources: integers (tables of
// numbers left out), strings and byte slices, and the bytes at fixed places
// that one condition compares.
func dict(files []*ast.File, info *types.Info, base, out string) error {
	ints, cmp, strs := map[uint64]bool{}, map[uint64]bool{}, map[string]bool{}
	var groups [][][2]uint64
	seq := func(e ast.Expr, num func(ast.Expr) (uint64, bool)) {
		if b := values(e, num); len(b) > 1 && len(b) <= 64 {
			strs[hex.EncodeToString(b)] = true
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
			strs[hex.EncodeToString(b)] = true
		}
	}
	num := func(e ast.Expr) (uint64, bool) {
		tv, ok := info.Types[e]
		if !ok || tv.Value == nil {
			return 0, false
		}
		v := constant.ToInt(tv.Value)
		if v.Kind() != constant.Int {
			return 0, false
		}
		if n, ok := constant.Uint64Val(v); ok {
			return n, true
		}
		n, ok := constant.Int64Val(v)
		return uint64(-n), ok
	}
	add := func(m map[uint64]bool, e ast.Expr) {
		if n, ok := num(e); ok {
			m[n] = true
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CompositeLit:
				var b []byte
				for _, x := range n.Elts {
					if v, ok := num(x); ok && v < 256 {
						b = append(b, byte(v))
					}
				}
				if len(b) == len(n.Elts) && len(b) > 1 && len(b) <= 64 {
					strs[hex.EncodeToString(b)] = true
				}
				for _, x := range n.Elts {
					if _, ok := num(x); !ok {
						return true
					}
				}
				return false // a table of numbers
			case *ast.CaseClause:
				for _, x := range n.List {
					add(cmp, x)
					add(ints, x)
				}
			case *ast.BinaryExpr:
				switch n.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.REM, token.AND, token.QUO:
					add(cmp, n.X)
					add(cmp, n.Y)
				case token.LAND, token.LOR:
					seq(n, num)
					if g := group(n, num); len(g) > 0 {
						groups = append(groups, g)
					}
				}
				if n.Op == token.EQL || n.Op == token.NEQ {
					if g := group(n, num); len(g) > 0 {
						groups = append(groups, g)
					}
				}
			}
			if e, ok := n.(ast.Expr); ok {
				add(ints, e)
				if tv, ok := info.Types[e]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
					if s := constant.StringVal(tv.Value); len(s) > 0 && len(s) <= 64 {
						strs[hex.EncodeToString([]byte(s))] = true
					}
				}
			}
			return true
		})
	}
	// which of them the sources did not have when this was written
	had := map[string]bool{}
	if b, err := os.ReadFile(base); err == nil {
		var l []string
		if err := json.Unmarshal(b, &l); err != nil {
			return err
		}
		for _, k := range l {
			had[k] = true
		}
	}
	var keys, fresh []string
	for n := range ints {
		keys = append(keys, "int "+strconv.FormatUint(n, 10))
	}
	for s := range strs {
		keys = append(keys, "str "+s)
	}
	for _, g := range groups {
		b, _ := json.Marshal(g)
		keys = append(keys, "group "+string(b))
	}
	sort.Strings(keys)
	for _, k := range keys {
		if !had[k] {
			fresh = append(fresh, k)
		}
	}
	if len(had) == 0 {
		b, err := json.MarshalIndent(keys, "", " ")
		if err != nil {
			return err
		}
		return os.WriteFile(out, append(b, '\n'), 0o644)
	}
	list := func(m map[uint64]bool) (l []uint64) {
		for k := range m {
			l = append(l, k)
		}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		return
	}
	var ss []string
	for s := range strs {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	b, err := json.Marshal(map[string]interface{}{"Ints": list(ints), "Cmp": list(cmp), "Strs": ss, "Groups": groups, "New": fresh})
	if err != nil {
		return err
	}
	return os.WriteFile(out, b, 0o644)
}

// group collects x[i] == v for constant i and v.
func group(e ast.Expr, num func(ast.Expr) (uint64, bool)) (g [][2]uint64) {
	ast.Inspect(e, func(n ast.Node) bool {
		b, ok := n.(*ast.BinaryExpr)
		if !ok || b.Op == token.LAND || b.Op == token.LOR {
			return true
		}
		for _, p := range [][2]ast.Expr{{b.X, b.Y}, {b.Y, b.X}} {
			if x, ok := p[0].(*ast.IndexExpr); ok {
				i, ok1 := num(x.Index)
				v, ok2 := num(p[1])
				if ok1 && ok2 && v < 256 {
					g = append(g, [2]uint64{i, v})
				}
			}
		}
		return true
	})
	return
}

// values lists the bytes that a condition compares with elements of slices.
func values(e ast.Expr, num func(ast.Expr) (uint64, bool)) (l []byte) {
	ast.Inspect(e, func(n ast.Node) bool {
		b, ok := n.(*ast.BinaryExpr)
		if !ok || b.Op == token.LAND || b.Op == token.LOR {
			return true
		}
		for _, p := range [][2]ast.Expr{{b.X, b.Y}, {b.Y, b.X}} {
			if _, ok := p[0].(*ast.IndexExpr); ok {
				if v, ok := num(p[1]); ok && v < 256 {
					l = append(l, byte(v))
				}
			}
		}
		return true
	})
	return
}
