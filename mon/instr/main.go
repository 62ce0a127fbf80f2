// Command instr writes instrumented copies of the library's source files.
//
//	overflow: every +, -, *, << and unary - on int64 checks for overflow
//	trace:    every block and every evaluated right operand of && and ||
//	          counts its executions, every index and slice bound of a
//	          non-constant expression is added to a sum
//	dict:     the constants of the sources, as JSON
//	yield:    every block gives up the processor now and then
//
// The files are used through a build overlay and replace nothing in the tree.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const pkgPath = "github.com/proximax-storage/go-xpx-crypto"

type instr struct {
	mode  string
	fset  *token.FileSet
	info  *types.Info
	sites []string // positions
	idx   []string
	n     int
	plain bool // blocks only, no expressions
}

func main() {
	mode := flag.String("mode", "", "overflow, trace or yield")
	src := flag.String("src", "", "directory of the library")
	out := flag.String("out", "", "output directory")
	modfile := flag.String("modfile", "", "go.mod to resolve imports with")
	flag.Parse()
	if err := run(*mode, *src, *out, *modfile); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

// exports asks the build for the export data of the imports and for the files.
func exports(modfile string) (map[string]string, []string, error) {
	args := []string{"list", "-export", "-deps"}
	if modfile != "" {
		args = append(args, "-modfile", modfile)
	}
	args = append(args, "-f", "{{.ImportPath}}\t{{.Export}}\t{{if eq .ImportPath \""+pkgPath+"\"}}{{range .GoFiles}}{{.}} {{end}}{{end}}", pkgPath)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return nil, nil, err
	}
	m := map[string]string{}
	var files []string
	for _, l := range strings.Split(string(b), "\n") {
		p := strings.Split(l, "\t")
		if len(p) < 3 {
			continue
		}
		m[p[0]] = p[1]
		if p[0] == pkgPath {
			files = strings.Fields(p[2])
		}
	}
	return m, files, nil
}

func run(mode, src, out, modfile string) error {
	exp, names, err := exports(modfile)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(fset, filepath.Join(src, n), nil, 0)
		if err != nil {
			return err
		}
		files = append(files, f)
	}
	if len(files) == 0 {
		return fmt.Errorf("no source files")
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		f := exp[p]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(f)
	})}
	if _, err := conf.Check(pkgPath, fset, files, info); err != nil {
		return err
	}
	if mode == "dict" {
		return dict(files, info, filepath.Join("instr", "constants.json"), out)
	}
	in := &instr{mode: mode, fset: fset, info: info}
	for i, f := range files {
		for _, d := range f.Decls {
			in.decl(d)
		}
		var b bytes.Buffer
		if err := printer.Fprint(&b, fset, f); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(out, names[i]), b.Bytes(), 0o644); err != nil {
			return err
		}
	}
	var b bytes.Buffer
	if mode == "overflow" {
		b.WriteString(overflowRT)
		fmt.Fprintf(&b, "\nfunc init() { VerifReg[\"overflow.sites\"] = %d; VerifReg[\"overflow.add\"] = verifAdd64 }\n", in.n)
	} else if mode == "yield" {
		b.WriteString(yieldRT)
		fmt.Fprintf(&b, "\nconst verifSites = %d\n", in.n+1)
	} else {
		b.WriteString(traceRT)
		fmt.Fprintf(&b, "\nvar verifCnt [%d]int64\n\nvar verifIdx [%d][2]uint64\n\n", len(in.sites)+1, len(in.idx)+1)
		fmt.Fprintf(&b, "var verifNames = %#v\n\nvar verifIdxNames = %#v\n", append(in.sites, ""), append(in.idx, ""))
	}
	if err := os.WriteFile(filepath.Join(out, "zz_verif_instr.go"), b.Bytes(), 0o644); err != nil || mode != "trace" {
		return err
	}
	return bigInts(filepath.Join(out, "big"))
}

// bigInts writes copies of the integer files of math/big that count the
// executions of their blocks: these run different code for different values.
func bigInts(out string) error {
	b, err := exec.Command("go", "list", "-f", "{{.Dir}}\n{{range .GoFiles}}{{.}} {{end}}", "math/big").Output()
	if err != nil {
		return err
	}
	dir, list, _ := strings.Cut(strings.TrimSpace(string(b)), "\n")
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	in := &instr{mode: "trace", fset: token.NewFileSet(), info: &types.Info{}, plain: true}
	for _, n := range strings.Fields(list) {
		if !strings.HasPrefix(n, "int") && !strings.HasPrefix(n, "nat") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return err
		}
		if bytes.Contains(src, []byte("\n//go:")) {
			continue // directives get lost in printing
		}
		f, err := parser.ParseFile(in.fset, n, src, 0)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			if d, ok := d.(*ast.FuncDecl); ok && d.Body != nil {
				in.block(d.Body, "func "+d.Name.Name+" of math/big")
			}
		}
		var b bytes.Buffer
		if err := printer.Fprint(&b, in.fset, f); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(out, n), b.Bytes(), 0o644); err != nil {
			return err
		}
	}
	rt := fmt.Sprintf("package big\n\nfunc verifHit(i int) { VerifCnt[i]++ }\n\nvar VerifCnt [%d]int64\n\nvar VerifNames = %#v\n", len(in.sites)+1, append(in.sites, ""))
	if err := os.WriteFile(filepath.Join(out, "zz_verif_instr.go"), []byte(rt), 0o644); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(out, "dir"), []byte(dir), 0o644); err != nil {
		return err
	}
	// the library's side of it
	return os.WriteFile(filepath.Join(filepath.Dir(out), "zz_verif_big.go"), []byte(bigRT), 0o644)
}

const bigRT = `package crypto

import "math/big"

func init() {
	VerifReg["trace.big.reset"] = func() { big.VerifCnt = [len(big.VerifCnt)]int64{} }
	VerifReg["trace.big.read"] = func(cnt []int64) { copy(cnt, big.VerifCnt[:]) }
	VerifReg["trace.big.names"] = func() []string { return big.VerifNames }
}
`

const overflowRT = `package crypto

func verifAdd64(a, b int64) int64 {
	s := a + b
	if (s > a) != (b > 0) && b != 0 {
		panic("verif: int64 overflow in an addition")
	}
	return s
}

func verifSub64(a, b int64) int64 {
	s := a - b
	if (s < a) != (b > 0) && b != 0 {
		panic("verif: int64 overflow in a subtraction")
	}
	return s
}

func verifMul64(a, b int64) int64 {
	s := a * b
	if int64(int32(a)) == a && int64(int32(b)) == b {
		return s
	}
	if a != 0 && (s/a != b || (a == -1 && b == -1<<63)) {
		panic("verif: int64 overflow in a multiplication")
	}
	return s
}

func verifShl64(a int64, n uint) int64 {
	s := a << n
	if s>>n != a || n > 62 && a != 0 {
		panic("verif: int64 overflow in a shift")
	}
	return s
}

func verifNeg64(a int64) int64 {
	if a == -1<<63 {
		panic("verif: int64 overflow in a negation")
	}
	return -a
}
`

const traceRT = `package crypto

func verifHit(i int) { verifCnt[i]++ }

func verifB(i int, b bool) bool { verifCnt[i]++; return b }

func verifI(i int, v int) int {
	x := &verifIdx[i]
	x[0]++
	h := uint64(v) * 0x9e3779b97f4a7c15
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	x[1] += h ^ h>>32
	return v
}

func init() {
	VerifReg["trace.reset"] = func() {
		verifCnt = [len(verifCnt)]int64{}
		verifIdx = [len(verifIdx)][2]uint64{}
	}
	VerifReg["trace.read"] = func(cnt []int64, idx [][2]uint64) {
		copy(cnt, verifCnt[:])
		copy(idx, verifIdx[:])
	}
	VerifReg["trace.names"] = func() (blocks, indices []string) { return verifNames, verifIdxNames }
}
`

const yieldRT = `package crypto

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
)

var verifYields int64

const verifNever = 1<<32 - 1

// one execution of a site in so many yields (a power of two, less one)
var verifMasks [verifSites]uint32
var verifCnts, verifMost [verifSites]int64
var verifCounting, verifCalibrated, verifDeep bool

func verifYield(k int) {
	if verifMasks[k] != verifNever {
		verifPause(k)
	}
}

func verifPause(k int) {
	if verifCounting {
		verifCnts[k]++
		return
	}
	r := rand.Uint64()
	if uint32(r)&verifMasks[k] != 0 {
		return
	}
	atomic.AddInt64(&verifYields, 1)
	runtime.Gosched()
	if verifDeep && r>>32&15 == 0 {
		// now and then long enough for many others to pass
		for n := 1 << (r >> 40 & 7); n > 0; n-- {
			runtime.Gosched()
		}
	}
}

func verifCount(f func()) {
	for k := range verifMasks {
		verifCnts[k], verifMasks[k] = 0, 0
	}
	verifCounting = true
	defer func() { verifCounting = false }()
	f()
}

// a power of two, not below n
func verifUp(n int64) uint32 {
	m := uint32(1)
	for int64(m) < n && m < 1<<28 {
		m *= 2
	}
	return m
}

// verifCalibrate runs what it is given and remembers how often each site was
// executed by the one that executes it most.
func verifCalibrate(fs []func()) {
	for _, f := range fs {
		verifCount(f)
		for k := range verifMost {
			if verifMost[k] < verifCnts[k] {
				verifMost[k] = verifCnts[k]
			}
		}
	}
	verifCalibrated = true
	verifNormal()
}

// verifNormal makes each site yield about once in two operations; of those
// that are executed very often only some.
func verifNormal() {
	verifDeep = false
	for k := range verifMasks {
		switch n := verifMost[k]; {
		case !verifCalibrated:
			verifMasks[k] = 1023
		case n == 0:
			verifMasks[k] = 63
		case n > 2000 && rand.Uint32()&3 != 0:
			verifMasks[k] = verifNever
		default:
			verifMasks[k] = 2*verifUp(n) - 1
		}
	}
}

// verifCrowd runs f and sets every site that it executes to yield about once
// in a run, once in four, or never. It returns how many executions it saw.
func verifCrowd(f func()) (total int64) {
	verifCount(f)
	verifDeep = true
	for k := range verifMasks {
		n := verifCnts[k]
		total += n
		if n == 0 {
			n = verifMost[k]
		}
		m := verifUp(n)
		verifMasks[k] = [4]uint32{m - 1, 4*m - 1, verifNever, verifNever}[rand.Uint32()&3]
	}
	return total
}

func init() {
	verifNormal()
	VerifReg["yield.calibrate"] = verifCalibrate
	VerifReg["yield.crowd"] = verifCrowd
	VerifReg["yield.normal"] = verifNormal
	VerifReg["yield.taken"] = func() int64 { return atomic.SwapInt64(&verifYields, 0) }
}
`

func (in *instr) pos(p token.Pos, kind string) string {
	q := in.fset.Position(p)
	return fmt.Sprintf("%s:%d %s", filepath.Base(q.Filename), q.Line, kind)
}

func (in *instr) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.FuncDecl:
		if d.Body != nil {
			in.block(d.Body, "func "+d.Name.Name)
		}
	case *ast.GenDecl:
		if d.Tok == token.VAR {
			for _, s := range d.Specs {
				v := s.(*ast.ValueSpec)
				for i := range v.Values {
					v.Values[i] = in.expr(v.Values[i])
				}
			}
		}
	}
}

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: ast.NewIdent(name), Args: args}
}

func lit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)} }

func (in *instr) hit(p token.Pos, kind string) ast.Stmt {
	in.sites = append(in.sites, in.pos(p, kind))
	return &ast.ExprStmt{X: call("verifHit", lit(len(in.sites)-1))}
}

func (in *instr) block(b *ast.BlockStmt, kind string) {
	if b == nil {
		return
	}
	in.stmts(b.List)
	if in.mode == "trace" {
		b.List = append([]ast.Stmt{in.hit(b.Pos(), kind)}, b.List...)
	}
	if in.mode == "yield" {
		// at its start and between statements that call something
		var l []ast.Stmt
		for i, s := range b.List {
			calls := i == 0
			ast.Inspect(s, func(n ast.Node) bool {
				if _, ok := n.(*ast.CallExpr); ok {
					calls = true
				}
				if id, ok := n.(*ast.Ident); ok {
					// a variable of the package
					if v, ok := in.info.Uses[id].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
						calls = true
					}
				}
				return !calls
			})
			if _, ok := s.(*ast.DeclStmt); !ok && calls {
				l = append(l, &ast.ExprStmt{X: call("verifYield", lit(in.n))})
				in.n++
			}
			l = append(l, s)
		}
		b.List = l
	}
}

func (in *instr) stmts(l []ast.Stmt) {
	for i := range l {
		l[i] = in.stmt(l[i])
	}
}

func (in *instr) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = in.expr(l[i])
	}
}

var opAssign = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.SHL_ASSIGN: token.SHL,
}

func (in *instr) isInt64(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	return ok && tv.Value == nil && tv.Type != nil && types.Identical(tv.Type, types.Typ[types.Int64])
}

func (in *instr) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		in.block(s, "block")
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = in.stmt(s.Init)
		}
		s.Cond = in.expr(s.Cond)
		in.block(s.Body, "if")
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			in.block(e, "else")
		case *ast.IfStmt:
			in.stmt(e)
		}
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = in.stmt(s.Init)
		}
		if s.Cond != nil {
			s.Cond = in.expr(s.Cond)
		}
		if s.Post != nil {
			s.Post = in.stmt(s.Post)
		}
		in.block(s.Body, "for")
	case *ast.RangeStmt:
		s.X = in.expr(s.X)
		in.block(s.Body, "range")
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = in.stmt(s.Init)
		}
		if s.Tag != nil {
			s.Tag = in.expr(s.Tag)
		}
		in.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = in.stmt(s.Init)
		}
		in.clauses(s.Body)
	case *ast.SelectStmt:
		in.clauses(s.Body)
	case *ast.LabeledStmt:
		s.Stmt = in.stmt(s.Stmt)
	case *ast.ExprStmt:
		s.X = in.expr(s.X)
	case *ast.SendStmt:
		s.Chan, s.Value = in.expr(s.Chan), in.expr(s.Value)
	case *ast.IncDecStmt:
		s.X = in.expr(s.X)
	case *ast.GoStmt:
		in.expr(s.Call)
	case *ast.DeferStmt:
		in.expr(s.Call)
	case *ast.ReturnStmt:
		in.exprs(s.Results)
	case *ast.DeclStmt:
		in.decl(s.Decl)
	case *ast.AssignStmt:
		op, isOp := opAssign[s.Tok]
		if in.mode == "overflow" && isOp && len(s.Lhs) == 1 && in.isInt64(s.Lhs[0]) && pure(s.Lhs[0]) {
			rhs := in.arith(op, s.Lhs[0], in.expr(s.Rhs[0]))
			s.Tok = token.ASSIGN
			s.Rhs[0] = rhs
			return s
		}
		in.exprs(s.Lhs)
		in.exprs(s.Rhs)
	}
	return s
}

func (in *instr) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch c := c.(type) {
		case *ast.CaseClause:
			// type switches have types here
			for i, e := range c.List {
				if tv, ok := in.info.Types[e]; ok && tv.IsValue() {
					c.List[i] = in.expr(e)
				}
			}
			in.stmts(c.Body)
			if in.mode == "trace" {
				c.Body = append([]ast.Stmt{in.hit(c.Pos(), "case")}, c.Body...)
			}
		case *ast.CommClause:
			in.stmts(c.Body)
			if in.mode == "trace" {
				c.Body = append([]ast.Stmt{in.hit(c.Pos(), "comm")}, c.Body...)
			}
		}
	}
}

// pure tells whether an operand may be evaluated twice.
func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.IndexExpr:
		return pure(e.X) && pure(e.Index)
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	case *ast.StarExpr:
		return pure(e.X)
	case *ast.BinaryExpr:
		return pure(e.X) && pure(e.Y)
	}
	return false
}

func (in *instr) arith(op token.Token, x, y ast.Expr) ast.Expr {
	in.n++
	switch op {
	case token.ADD:
		return call("verifAdd64", x, y)
	case token.SUB:
		return call("verifSub64", x, y)
	case token.MUL:
		return call("verifMul64", x, y)
	}
	return call("verifShl64", x, call("uint", y))
}

func (in *instr) isBool(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	return ok && tv.Value == nil && tv.Type != nil && (types.Identical(tv.Type, types.Typ[types.Bool]) || types.Identical(tv.Type, types.Typ[types.UntypedBool]))
}

// index wraps an index or slice bound.
func (in *instr) index(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	tv := in.info.Types[e]
	r := in.expr(e)
	if in.mode != "trace" || tv.Value != nil || tv.Type == nil {
		return r
	}
	b, ok := tv.Type.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return r
	}
	in.idx = append(in.idx, in.pos(e.Pos(), "index"))
	return call("verifI", lit(len(in.idx)-1), call("int", r))
}

func indexable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Array:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Pointer:
		_, ok := u.Elem().Underlying().(*types.Array)
		return ok
	}
	return false
}

func (in *instr) expr(e ast.Expr) ast.Expr {
	if in.plain {
		return e
	}
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.ParenExpr:
		e.X = in.expr(e.X)
	case *ast.BinaryExpr:
		tv := in.info.Types[e]
		if tv.Value != nil {
			return e
		}
		i64 := in.isInt64(e)
		yb := in.isBool(e.Y)
		yp := e.Y.Pos()
		e.X, e.Y = in.expr(e.X), in.expr(e.Y)
		if in.mode == "overflow" && i64 {
			switch e.Op {
			case token.ADD, token.SUB, token.MUL, token.SHL:
				return in.arith(e.Op, e.X, e.Y)
			}
		}
		if in.mode == "trace" && (e.Op == token.LAND || e.Op == token.LOR) && yb {
			in.sites = append(in.sites, in.pos(yp, e.Op.String()))
			e.Y = call("verifB", lit(len(in.sites)-1), e.Y)
		}
	case *ast.UnaryExpr:
		if tv := in.info.Types[e]; tv.Value != nil {
			return e
		}
		i64 := in.isInt64(e)
		e.X = in.expr(e.X)
		if in.mode == "overflow" && e.Op == token.SUB && i64 {
			in.n++
			return call("verifNeg64", e.X)
		}
	case *ast.CallExpr:
		if tv := in.info.Types[e]; tv.Value != nil {
			return e
		}
		if f := in.info.Types[e.Fun]; !f.IsType() {
			e.Fun = in.expr(e.Fun)
		}
		for i, a := range e.Args {
			if tv := in.info.Types[a]; tv.IsType() {
				continue // make, new
			}
			e.Args[i] = in.expr(a)
		}
	case *ast.IndexExpr:
		x := in.info.Types[e.X]
		if x.IsType() || !x.IsValue() {
			return e
		}
		ok := indexable(x.Type)
		e.X = in.expr(e.X)
		if ok {
			e.Index = in.index(e.Index)
		} else {
			e.Index = in.expr(e.Index)
		}
	case *ast.SliceExpr:
		e.X = in.expr(e.X)
		e.Low, e.High, e.Max = in.index(e.Low), in.index(e.High), in.index(e.Max)
	case *ast.SelectorExpr:
		if x := in.info.Types[e.X]; x.IsValue() {
			e.X = in.expr(e.X)
		}
	case *ast.StarExpr:
		if x := in.info.Types[e.X]; x.IsValue() {
			e.X = in.expr(e.X)
		}
	case *ast.TypeAssertExpr:
		e.X = in.expr(e.X)
	case *ast.CompositeLit:
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				kv.Value = in.expr(kv.Value)
			} else {
				e.Elts[i] = in.expr(el)
			}
		}
	case *ast.KeyValueExpr:
		e.Value = in.expr(e.Value)
	case *ast.FuncLit:
		in.block(e.Body, "func")
	}
	return e
}
