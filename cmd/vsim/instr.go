package main

// Source instrumentation: every package of the module is type-checked and
// rewritten so that each memory access that may be shared, each map iteration,
// lock, channel operation, goroutine, clock and random source goes through the
// simulator runtime (package zzsim). The rewritten files are only ever given
// to the compiler through -overlay; /repo is not touched.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const (
	modPath = "github.com/adamcolton/parlex"
	simPath = modPath + "/zzsim"
	simName = "zzsim"
)

var importRepl = map[string]string{
	"sync":         simPath + "/ssync",
	"sync/atomic":  simPath + "/satomic",
	"time":         simPath + "/stime",
	"math/rand":    simPath + "/srand",
	"math/rand/v2": simPath + "/srand2",
	"maps":         simPath + "/smaps",
	"hash/maphash": simPath + "/smaphash",
	"crypto/rand":  simPath + "/scrand",
	"runtime":      simPath + "/sruntime",
	"context":      simPath + "/scontext",
}

var mainImportRepl = map[string]string{
	"os":  simPath + "/sos",
	"fmt": simPath + "/sfmt",
}

var defaultName = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "time": "time", "math/rand": "rand",
	"math/rand/v2": "rand", "maps": "maps", "hash/maphash": "maphash", "crypto/rand": "rand", "runtime": "runtime", "context": "context", "os": "os", "fmt": "fmt",
}

// Site is a place in the source.
type Site struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Kind string `json:"kind"`
}

type Sites struct{ List []Site }

func (s *Sites) add(f string, line int, fn, kind string) int {
	s.List = append(s.List, Site{f, line, fn, kind})
	return len(s.List) - 1
}

// types of the standard library that are not safe for concurrent use and hold
// state that their methods change.
var unsafeExt = map[string]bool{
	"strings.Builder": true, "bytes.Buffer": true, "strings.Reader": true, "bytes.Reader": true,
	"bufio.Reader": true, "bufio.Writer": true, "bufio.Scanner": true, "bufio.ReadWriter": true,
	"container/list.List": true, "container/list.Element": true, "container/ring.Ring": true,
	"math/rand.Rand": true, "math/rand/v2.Rand": true, "math/rand/v2.PCG": true,
	"text/scanner.Scanner": true, "go/scanner.Scanner": true,
	"encoding/json.Decoder": true, "encoding/json.Encoder": true, "encoding/gob.Decoder": true, "encoding/gob.Encoder": true,
	"math/big.Int": true, "math/big.Float": true, "math/big.Rat": true,
}

var readOnlyMeth = map[string]bool{
	"String": true, "Len": true, "Cap": true, "Bytes": true, "Available": true, "Front": true, "Back": true,
	"Next": true, "Prev": true, "Size": true, "Buffered": true, "Text": true, "Err": true, "Cmp": true, "Sign": true,
}

var sliceWriters = map[string]bool{
	"sort.Slice": true, "sort.SliceStable": true, "sort.Sort": false, "sort.Strings": true, "sort.Ints": true, "sort.Float64s": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true,
	"slices.Insert": true, "slices.Delete": true, "slices.Compact": true, "slices.CompactFunc": true, "slices.Replace": true, "slices.DeleteFunc": true,
}

type pkgInstr struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	path    string
	sites   *Sites
	tracked map[*types.Var]bool
	isMain  bool

	file    string
	fn      string
	tmp     int
	ptrConv int // inside a conversion to unsafe.Pointer
	usedRT  bool
	extra   map[string]string // imports added to the file: path, name
}

func newInfo() *types.Info {
	return &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
		Instances:  map[*ast.Ident]types.Instance{},
		Scopes:     map[ast.Node]*types.Scope{},
	}
}

// ---------------------------------------------------------------- helpers

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func (p *pkgInstr) rt(name string) ast.Expr {
	p.usedRT = true
	return &ast.SelectorExpr{X: id(simName), Sel: id(name)}
}

func num(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func addr(e ast.Expr) ast.Expr {
	if s, ok := e.(*ast.StarExpr); ok {
		return s.X
	}
	if s, ok := e.(*ast.ParenExpr); ok {
		if st, ok := s.X.(*ast.StarExpr); ok {
			return st.X
		}
	}
	return &ast.UnaryExpr{Op: token.AND, X: e}
}

func (p *pkgInstr) site(n ast.Node, kind string) ast.Expr {
	pos := p.fset.Position(n.Pos())
	return num(p.sites.add(p.file, pos.Line, p.fn, kind))
}

func (p *pkgInstr) typ(e ast.Expr) types.Type {
	if tv, ok := p.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := p.info.ObjectOf(i); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// core returns the underlying type, looking through type parameters.
func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		iface, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		var u types.Type
		for i := 0; i < iface.NumEmbeddeds(); i++ {
			switch e := iface.EmbeddedType(i).(type) {
			case *types.Union:
				for j := 0; j < e.Len(); j++ {
					x := e.Term(j).Type().Underlying()
					if u != nil && !types.Identical(u, x) {
						return nil
					}
					u = x
				}
			default:
				u = e.Underlying()
			}
		}
		return u
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool {
	_, ok := core(t).(*types.Pointer)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		if q, ok := e.(*ast.ParenExpr); ok {
			e = q.X
			continue
		}
		return e
	}
}

func (p *pkgInstr) constOrNil(e ast.Expr) bool {
	tv, ok := p.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

// hasCall reports whether evaluating e may call a function.
func (p *pkgInstr) hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch c := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if tv, ok := p.info.Types[c.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
				return true
			}
			found = true
		case *ast.UnaryExpr:
			if c.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

// root finds the variable at the bottom of a value path (fields and array
// elements, no pointer or slice hops).
func (p *pkgInstr) root(e ast.Expr) *types.Var {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		v, _ := p.info.ObjectOf(x).(*types.Var)
		return v
	case *ast.SelectorExpr:
		if s := p.info.Selections[x]; s != nil {
			if s.Kind() == types.FieldVal && !s.Indirect() {
				return p.root(x.X)
			}
			return nil
		}
		v, _ := p.info.ObjectOf(x.Sel).(*types.Var)
		return v
	case *ast.IndexExpr:
		if _, ok := core(p.typ(x.X)).(*types.Array); ok {
			return p.root(x.X)
		}
	}
	return nil
}

func isPkgVar(v *types.Var) bool {
	return v != nil && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
}

func inModule(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }

// needs reports whether an access to the addressable expression e can touch
// memory another task may reach.
func (p *pkgInstr) needs(e ast.Expr) bool {
	e = unparen(e)
	tv, ok := p.info.Types[e]
	if i, isId := e.(*ast.Ident); isId {
		v, _ := p.info.ObjectOf(i).(*types.Var)
		if v == nil || v.Name() == "_" {
			return false
		}
		if isPkgVar(v) {
			return inModule(v.Pkg().Path())
		}
		return p.tracked[v]
	}
	if !ok || !tv.Addressable() {
		return false
	}
	if sel, isSel := e.(*ast.SelectorExpr); isSel {
		if p.info.Selections[sel] == nil { // pkg.Var
			v, _ := p.info.ObjectOf(sel.Sel).(*types.Var)
			return v != nil && v.Pkg() != nil && inModule(v.Pkg().Path())
		}
	}
	v := p.root(e)
	if v == nil {
		return true // through a pointer or slice
	}
	if isPkgVar(v) {
		return v.Pkg() == nil || inModule(v.Pkg().Path())
	}
	return p.tracked[v]
}

// ---------------------------------------------------------------- pass 1: which locals can be shared

func (p *pkgInstr) findTracked(f *ast.File) {
	var stack []ast.Node // enclosing functions
	owner := map[*types.Var]ast.Node{}
	var walk func(n ast.Node)
	markAddr := func(e ast.Expr) {
		if v := p.root(e); v != nil && !v.IsField() {
			p.tracked[v] = true
		}
	}
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				if m == n {
					return true
				}
				stack = append(stack, x)
				walk(x)
				stack = stack[:len(stack)-1]
				return false
			case *ast.Ident:
				var top ast.Node
				if len(stack) > 0 {
					top = stack[len(stack)-1]
				}
				if v, ok := p.info.Defs[x].(*types.Var); ok && v != nil {
					owner[v] = top
				}
				if v, ok := p.info.Uses[x].(*types.Var); ok && !v.IsField() && !isPkgVar(v) {
					if o, ok := owner[v]; ok && o != top {
						p.tracked[v] = true
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					markAddr(x.X)
				}
			case *ast.SliceExpr:
				if _, ok := core(p.typ(x.X)).(*types.Array); ok {
					markAddr(x.X)
				}
			case *ast.SelectorExpr:
				if s := p.info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
					if fn, ok := s.Obj().(*types.Func); ok {
						if r := fn.Type().(*types.Signature).Recv(); r != nil && isPtr(r.Type()) && !isPtr(p.typ(x.X)) {
							markAddr(x.X)
						}
					}
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		stack = append(stack[:0], d)
		walk(d)
	}
	// type switch variables are implicit objects: they are fresh copies, and
	// closures capturing them only read them; not tracked.
}

// ---------------------------------------------------------------- expressions

// rv rewrites e where its value is used.
func (p *pkgInstr) rv(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := p.info.Types[e]; ok {
		if tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin() {
			return e
		}
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: p.rv(x.X)}
	case *ast.Ident:
		if p.needs(x) {
			return call(p.rt("R"), addr(x), p.site(x, "read"))
		}
		return x
	case *ast.SelectorExpr:
		return p.rvSel(x)
	case *ast.IndexExpr:
		t := core(p.typ(x.X))
		if _, ok := p.info.Types[x.X]; !ok || t == nil {
			return p.rvIndexPlain(x)
		}
		if _, isFn := t.(*types.Signature); isFn {
			return x // instantiation
		}
		switch t.(type) {
		case *types.Map:
			return &ast.IndexExpr{X: call(p.rt("MR"), p.rv(x.X), p.site(x, "map read")), Index: p.rv(x.Index)}
		}
		if p.needs(x) {
			return call(p.rt("R"), addr(p.lv(x)), p.site(x, "read"))
		}
		return p.rvIndexPlain(x)
	case *ast.IndexListExpr:
		return x
	case *ast.StarExpr:
		return call(p.rt("R"), p.rv(x.X), p.site(x, "read"))
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if cl, ok := unparen(x.X).(*ast.CompositeLit); ok {
				return &ast.UnaryExpr{Op: token.AND, X: p.rv(cl)}
			}
			return addr2(p.lv(x.X))
		case token.ARROW:
			return call(p.rt("Recv"), p.rv(x.X))
		}
		return &ast.UnaryExpr{Op: x.Op, X: p.rv(x.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: p.rv(x.X), Op: x.Op, Y: p.rv(x.Y)}
	case *ast.CallExpr:
		return p.rvCall(x)
	case *ast.CompositeLit:
		n := &ast.CompositeLit{Type: x.Type}
		t := core(p.typ(x))
		if pt, ok := t.(*types.Pointer); ok {
			t = core(pt.Elem())
		}
		_, isStruct := t.(*types.Struct)
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k := kv.Key
				if !isStruct {
					k = p.rv(k)
				}
				n.Elts = append(n.Elts, &ast.KeyValueExpr{Key: k, Value: p.rv(kv.Value)})
			} else {
				n.Elts = append(n.Elts, p.rv(el))
			}
		}
		return n
	case *ast.FuncLit:
		return &ast.FuncLit{Type: x.Type, Body: p.body(x.Body, x)}
	case *ast.SliceExpr:
		n := &ast.SliceExpr{Low: p.rv(x.Low), High: p.rv(x.High), Max: p.rv(x.Max), Slice3: x.Slice3}
		if _, ok := core(p.typ(x.X)).(*types.Array); ok {
			n.X = p.lv(x.X)
		} else {
			n.X = p.rv(x.X)
		}
		return n
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: p.rv(x.X), Type: x.Type}
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: p.rv(x.Key), Value: p.rv(x.Value)}
	}
	return e
}

func addr2(e ast.Expr) ast.Expr { return addr(e) }

func (p *pkgInstr) rvIndexPlain(x *ast.IndexExpr) ast.Expr {
	base := x.X
	if v, ok := p.info.Types[x.X]; ok && v.Addressable() {
		if _, isArr := core(v.Type).(*types.Array); isArr {
			return &ast.IndexExpr{X: p.lv(x.X), Index: p.rv(x.Index)}
		}
	}
	return &ast.IndexExpr{X: p.rv(base), Index: p.rv(x.Index)}
}

// path expands promoted fields so that each hop is explicit. It returns the
// expression for the struct that directly holds the selected field or method.
func (p *pkgInstr) selPath(x *ast.SelectorExpr, s *types.Selection) (ast.Expr, types.Type, bool) {
	t := p.typ(x.X)
	idx := s.Index()
	var base ast.Expr
	addressable := true
	if isPtr(t) {
		base = p.rv(x.X)
	} else if tv := p.info.Types[x.X]; tv.Addressable() {
		base = p.lv(x.X)
	} else {
		base = p.rv(x.X)
		addressable = false
	}
	shared := isPtr(t) || p.needs(x.X)
	for _, i := range idx[:len(idx)-1] {
		st := t
		if pt, ok := core(t).(*types.Pointer); ok {
			st = pt.Elem()
		}
		stu, ok := core(st).(*types.Struct)
		if !ok {
			return nil, nil, false
		}
		f := stu.Field(i)
		if !f.Exported() && f.Pkg() != p.pkg {
			return nil, nil, false
		}
		var n ast.Expr = &ast.SelectorExpr{X: base, Sel: id(f.Name())}
		if isPtr(f.Type()) {
			if addressable && shared {
				n = call(p.rt("R"), addr(n), p.site(x, "read"))
			}
			addressable, shared = true, true
		}
		base, t = n, f.Type()
	}
	return base, t, true
}

func (p *pkgInstr) rvSel(x *ast.SelectorExpr) ast.Expr {
	s := p.info.Selections[x]
	if s == nil { // qualified identifier
		if p.needs(x) {
			return call(p.rt("R"), addr(x), p.site(x, "read"))
		}
		return x
	}
	switch s.Kind() {
	case types.FieldVal:
		if p.needs(x) {
			return call(p.rt("R"), addr(p.lv(x)), p.site(x, "read"))
		}
		if tv := p.info.Types[x]; tv.Addressable() {
			return p.lv(x)
		}
		base, _, ok := p.selPath(x, s)
		if !ok {
			return &ast.SelectorExpr{X: p.rv(x.X), Sel: x.Sel}
		}
		return &ast.SelectorExpr{X: base, Sel: x.Sel}
	case types.MethodVal:
		return p.method(x, s)
	}
	return x // method expression
}

func extName(t types.Type) string {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

func (p *pkgInstr) method(x *ast.SelectorExpr, s *types.Selection) ast.Expr {
	fn, _ := s.Obj().(*types.Func)
	if fn == nil {
		return &ast.SelectorExpr{X: p.rv(x.X), Sel: x.Sel}
	}
	recv := fn.Type().(*types.Signature).Recv()
	if recv == nil {
		return &ast.SelectorExpr{X: p.rv(x.X), Sel: x.Sel}
	}
	if types.IsInterface(recv.Type()) || types.IsInterface(p.typ(x.X)) {
		if len(s.Index()) == 1 {
			return &ast.SelectorExpr{X: p.rv(x.X), Sel: x.Sel}
		}
	}
	base, t, ok := p.selPath(x, s)
	if !ok {
		if isPtr(p.typ(x.X)) {
			base = p.rv(x.X)
		} else if tv := p.info.Types[x.X]; tv.Addressable() {
			base = p.lv(x.X)
		} else {
			base = p.rv(x.X)
		}
		return &ast.SelectorExpr{X: base, Sel: x.Sel}
	}
	if types.IsInterface(t) { // promoted through an embedded interface
		tv := p.info.Types[x.X]
		if isPtr(p.typ(x.X)) || (tv.Addressable() && p.needs(x.X)) {
			base = call(p.rt("R"), addr(base), p.site(x, "read"))
		}
		return &ast.SelectorExpr{X: base, Sel: x.Sel}
	}
	if isPtr(recv.Type()) {
		if unsafeExt[extName(recv.Type())] {
			h := "Wp"
			if readOnlyMeth[x.Sel.Name] {
				h = "Rp"
			}
			if isPtr(t) {
				base = call(p.rt(h), base, p.site(x, "call"))
			} else if p.needs(x.X) || len(s.Index()) > 1 {
				base = call(p.rt(h), addr(base), p.site(x, "call"))
			}
		}
		return &ast.SelectorExpr{X: base, Sel: x.Sel}
	}
	// value receiver: the value is read
	if isPtr(t) {
		return &ast.SelectorExpr{X: call(p.rt("R"), base, p.site(x, "read")), Sel: x.Sel}
	}
	if len(s.Index()) == 1 {
		return &ast.SelectorExpr{X: p.rv(x.X), Sel: x.Sel}
	}
	return &ast.SelectorExpr{X: base, Sel: x.Sel}
}

// lv rewrites e where its address is used; the result is addressable.
func (p *pkgInstr) lv(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: p.lv(x.X)}
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		s := p.info.Selections[x]
		if s == nil {
			return x
		}
		base, _, ok := p.selPath(x, s)
		if !ok {
			if isPtr(p.typ(x.X)) {
				base = p.rv(x.X)
			} else {
				base = p.lv(x.X)
			}
		}
		return &ast.SelectorExpr{X: base, Sel: x.Sel}
	case *ast.IndexExpr:
		t := core(p.typ(x.X))
		switch t.(type) {
		case *types.Array:
			return &ast.IndexExpr{X: p.lv(x.X), Index: p.rv(x.Index)}
		case *types.Map:
			return &ast.IndexExpr{X: p.rv(x.X), Index: p.rv(x.Index)}
		}
		return &ast.IndexExpr{X: p.rv(x.X), Index: p.rv(x.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: p.rv(x.X)}
	case *ast.CompositeLit:
		return p.rv(x)
	}
	return p.rv(e)
}

func (p *pkgInstr) builtin(x *ast.CallExpr) string {
	if i, ok := unparen(x.Fun).(*ast.Ident); ok {
		if b, ok := p.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (p *pkgInstr) rvAll(es []ast.Expr) []ast.Expr {
	out := make([]ast.Expr, len(es))
	for i, e := range es {
		out[i] = p.rv(e)
	}
	return out
}

func (p *pkgInstr) rvCall(x *ast.CallExpr) ast.Expr {
	tv := p.info.Types[x.Fun]
	if tv.IsType() { // conversion
		toPtr := isBasic(tv.Type, types.UnsafePointer)
		if toPtr {
			p.ptrConv++
		}
		arg := p.rv(x.Args[0])
		if toPtr {
			p.ptrConv--
		}
		if p.ptrConv == 0 && isBasic(tv.Type, types.Uintptr) && isBasic(p.typ(x.Args[0]), types.UnsafePointer) {
			return call(p.rt("AddrNum"), &ast.CallExpr{Fun: x.Fun, Args: []ast.Expr{arg}})
		}
		if sl, ok := core(p.typ(x.Args[0])).(*types.Slice); ok {
			if b, ok := under(tv.Type).(*types.Basic); ok && b.Info()&types.IsString != 0 {
				if _, ok := sl.Elem().Underlying().(*types.Basic); ok {
					arg = call(p.rt("RS"), arg, p.site(x, "read"))
				}
			}
		}
		return &ast.CallExpr{Fun: x.Fun, Args: []ast.Expr{arg}}
	}
	switch p.builtin(x) {
	case "new", "make":
		n := &ast.CallExpr{Fun: x.Fun, Args: []ast.Expr{x.Args[0]}}
		if p.builtin(x) == "new" {
			if tv := p.info.Types[x.Args[0]]; !tv.IsType() {
				n.Args[0] = p.rv(x.Args[0])
			}
		}
		n.Args = append(n.Args, p.rvAll(x.Args[1:])...)
		return n
	case "append":
		return p.rvAppend(x)
	case "copy":
		if b, ok := core(p.typ(x.Args[1])).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return call(x.Fun, call(p.rt("WS"), p.rv(x.Args[0]), p.site(x, "write")), p.rv(x.Args[1]))
		}
		return call(p.rt("Copy"), p.rv(x.Args[0]), p.rv(x.Args[1]), p.site(x, "copy"))
	case "delete":
		return call(x.Fun, call(p.rt("MW"), p.rv(x.Args[0]), p.site(x, "map delete")), p.rv(x.Args[1]))
	case "clear":
		if _, ok := core(p.typ(x.Args[0])).(*types.Map); ok {
			return call(x.Fun, call(p.rt("MW"), p.rv(x.Args[0]), p.site(x, "map clear")))
		}
		return call(x.Fun, call(p.rt("WS"), p.rv(x.Args[0]), p.site(x, "clear")))
	case "close":
		return call(p.rt("CloseCh"), p.rv(x.Args[0]))
	case "len", "cap":
		switch core(p.typ(x.Args[0])).(type) {
		case *types.Chan:
			if p.builtin(x) == "len" {
				return call(p.rt("ChLen"), p.rv(x.Args[0]))
			}
		case *types.Map:
			return call(x.Fun, call(p.rt("MR"), p.rv(x.Args[0]), p.site(x, "map read")))
		case *types.Array:
			return call(x.Fun, p.lv(x.Args[0]))
		}
		return call(x.Fun, p.rv(x.Args[0]))
	case "recover", "print", "println", "panic", "min", "max", "complex", "real", "imag":
		return &ast.CallExpr{Fun: x.Fun, Args: p.rvAll(x.Args), Ellipsis: x.Ellipsis}
	}
	if p.builtin(x) != "" {
		return x // unsafe and the like
	}
	n := &ast.CallExpr{Fun: p.rv(x.Fun), Args: p.rvAll(x.Args), Ellipsis: x.Ellipsis}
	// arguments handed to code outside the module
	if fn := p.callee(x); fn != nil && fn.Pkg() != nil && !inModule(fn.Pkg().Path()) {
		full := fn.Pkg().Name() + "." + fn.Name()
		if fn.Type().(*types.Signature).Recv() != nil {
			full = ""
		}
		for i, a := range x.Args {
			t := p.typ(a)
			if t == nil {
				continue
			}
			if _, ok := core(t).(*types.Slice); ok && !p.constOrNil(a) {
				h := "RS"
				if i == 0 && sliceWriters[full] {
					h = "WS"
				}
				n.Args[i] = call(p.rt(h), n.Args[i], p.site(a, "argument"))
			} else if isPtr(t) && unsafeExt[extName(t)] && !p.constOrNil(a) {
				n.Args[i] = call(p.rt("Wp"), n.Args[i], p.site(a, "argument"))
			} else if _, ok := core(t).(*types.Map); ok && !p.constOrNil(a) {
				n.Args[i] = call(p.rt("MR"), n.Args[i], p.site(a, "argument"))
			}
		}
		switch fn.FullName() {
		case "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln":
			return call(p.rt("AddrText"), n)
		case "(reflect.Value).Pointer":
			if p.ptrConv == 0 {
				return call(p.rt("AddrNum"), n)
			}
		}
	}
	return n
}

func isBasic(t types.Type, k types.BasicKind) bool {
	if t == nil {
		return false
	}
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == k
}

func (p *pkgInstr) callee(x *ast.CallExpr) *types.Func {
	f := unparen(x.Fun)
	if ix, ok := f.(*ast.IndexExpr); ok {
		f = ix.X
	}
	if ix, ok := f.(*ast.IndexListExpr); ok {
		f = ix.X
	}
	switch y := f.(type) {
	case *ast.Ident:
		fn, _ := p.info.Uses[y].(*types.Func)
		return fn
	case *ast.SelectorExpr:
		fn, _ := p.info.Uses[y.Sel].(*types.Func)
		return fn
	}
	return nil
}

func (p *pkgInstr) rvAppend(x *ast.CallExpr) ast.Expr {
	if len(x.Args) == 1 {
		return &ast.CallExpr{Fun: x.Fun, Args: p.rvAll(x.Args)}
	}
	base := x.Args[0]
	st := p.site(x, "append")
	tracked := p.needs(base) && p.info.Types[base].Addressable()
	anyConst := false
	for _, a := range x.Args[1:] {
		if p.constOrNil(a) {
			anyConst = true
		}
	}
	if x.Ellipsis.IsValid() {
		if b, ok := core(p.typ(x.Args[1])).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return &ast.CallExpr{Fun: x.Fun, Args: []ast.Expr{
				call(p.rt("App"), p.rv(base), call(id("len"), p.rv(x.Args[1])), st), p.rv(x.Args[1])}, Ellipsis: x.Ellipsis}
		}
		if p.constOrNil(x.Args[1]) {
			return &ast.CallExpr{Fun: x.Fun, Args: p.rvAll(x.Args), Ellipsis: x.Ellipsis}
		}
		if p.constOrNil(base) {
			return &ast.CallExpr{Fun: x.Fun, Args: []ast.Expr{base, call(p.rt("RS"), p.rv(x.Args[1]), st)}, Ellipsis: x.Ellipsis}
		}
		if tracked && p.hasCall(x.Args[1]) {
			return call(p.rt("AppPS"), addr(p.lv(base)), st, p.rv(x.Args[1]))
		}
		return call(p.rt("AppendS"), p.rv(base), p.rv(x.Args[1]), st)
	}
	if p.constOrNil(base) {
		return &ast.CallExpr{Fun: x.Fun, Args: p.rvAll(x.Args)}
	}
	calls := false
	for _, a := range x.Args[1:] {
		calls = calls || p.hasCall(a)
	}
	if tracked && calls && !anyConst {
		return &ast.CallExpr{Fun: call(p.rt("AppP"), addr(p.lv(base)), st), Args: p.rvAll(x.Args[1:])}
	}
	args := []ast.Expr{call(p.rt("App"), p.rv(base), num(len(x.Args)-1), st)}
	return &ast.CallExpr{Fun: x.Fun, Args: append(args, p.rvAll(x.Args[1:])...)}
}

// ---------------------------------------------------------------- statements

func (p *pkgInstr) tmpName(s string) *ast.Ident {
	p.tmp++
	return id(fmt.Sprintf("zz%s%d", s, p.tmp))
}

func (p *pkgInstr) step(n ast.Node) ast.Stmt {
	return &ast.ExprStmt{X: call(p.rt("Step"), p.site(n, "step"))}
}

func (p *pkgInstr) body(b *ast.BlockStmt, at ast.Node) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	out := &ast.BlockStmt{}
	out.List = append(out.List, p.step(at))
	out.List = append(out.List, p.stmts(b.List)...)
	return out
}

func (p *pkgInstr) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, p.stmt(s)...)
	}
	return out
}

func (p *pkgInstr) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: p.stmts(b.List)}
}

func define(lhs []ast.Expr, rhs []ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}
func assign(l, r ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{r}}
}

func (p *pkgInstr) isMapIdx(e ast.Expr) (*ast.IndexExpr, bool) {
	ix, ok := unparen(e).(*ast.IndexExpr)
	if !ok {
		return nil, false
	}
	if _, ok := core(p.typ(ix.X)).(*types.Map); ok {
		return ix, true
	}
	return nil, false
}

func (p *pkgInstr) mapKey(ix *ast.IndexExpr) ast.Expr {
	k := p.rv(ix.Index)
	m, _ := core(p.typ(ix.X)).(*types.Map)
	if m != nil && ptrish(m.Key()) && !p.constOrNil(ix.Index) && types.Identical(m.Key(), p.typ(ix.Index)) {
		return call(p.rt("Key"), k)
	}
	return k
}

func ptrish(t types.Type) bool {
	switch u := core(t).(type) {
	case *types.Pointer, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ptrish(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return ptrish(u.Elem())
	}
	return false
}

// isBlank reports the blank identifier.
func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (p *pkgInstr) needsStore(e ast.Expr) bool {
	if isBlank(e) {
		return false
	}
	if _, ok := p.isMapIdx(e); ok {
		return true
	}
	return p.needs(e)
}

// plainLHS is an assignable expression without tracking.
func (p *pkgInstr) plainLHS(e ast.Expr) ast.Expr {
	if isBlank(e) {
		return e
	}
	return p.lv(e)
}

func (p *pkgInstr) wp(e ast.Expr) ast.Expr {
	return &ast.StarExpr{X: call(p.rt("Wp"), addr(p.lv(e)), p.site(e, "write"))}
}

// storeLHS is a tracked assignable expression.
func (p *pkgInstr) storeLHS(e ast.Expr) ast.Expr {
	if ix, ok := p.isMapIdx(e); ok {
		return &ast.IndexExpr{X: call(p.rt("MW"), p.rv(ix.X), p.site(e, "map write")), Index: p.mapKey(ix)}
	}
	if p.needsStore(e) {
		return p.wp(e)
	}
	return p.plainLHS(e)
}

var opTok = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// simple rewrites a statement in a place where only a simple statement fits.
func (p *pkgInstr) simple(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		n := &ast.AssignStmt{Tok: x.Tok}
		if r2, ok := p.recv2(x); ok {
			n.Rhs = []ast.Expr{r2}
		} else {
			n.Rhs = p.rvAll(x.Rhs)
		}
		if x.Tok == token.DEFINE {
			n.Lhs = x.Lhs
			return n
		}
		for _, l := range x.Lhs {
			n.Lhs = append(n.Lhs, p.storeLHS(l))
		}
		return n
	case *ast.IncDecStmt:
		return &ast.IncDecStmt{X: p.storeLHS(x.X), Tok: x.Tok}
	case *ast.ExprStmt:
		return &ast.ExprStmt{X: p.rv(x.X)}
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(p.rt("Snd"), p.rv(x.Chan)), p.rv(x.Value))}
	}
	return s
}

func (p *pkgInstr) recv2(x *ast.AssignStmt) (ast.Expr, bool) {
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return call(p.rt("Recv2"), p.rv(u.X)), true
		}
	}
	return nil, false
}

func (p *pkgInstr) assignStmt(x *ast.AssignStmt) []ast.Stmt {
	if x.Tok == token.DEFINE {
		out := []ast.Stmt{p.simple(x)}
		for _, l := range x.Lhs {
			if i, ok := l.(*ast.Ident); ok && i.Name != "_" && p.info.Defs[i] == nil && p.needs(i) {
				out = append(out, &ast.ExprStmt{X: call(p.rt("W"), addr(i), p.site(i, "write"))})
			}
		}
		return out
	}
	if x.Tok != token.ASSIGN {
		return p.opAssign(x.Lhs[0], opTok[x.Tok], x.Rhs[0], x)
	}
	any := false
	for _, l := range x.Lhs {
		any = any || p.needsStore(l)
	}
	if !any {
		n := &ast.AssignStmt{Tok: x.Tok}
		for _, l := range x.Lhs {
			n.Lhs = append(n.Lhs, p.plainLHS(l))
		}
		if r2, ok := p.recv2(x); ok {
			n.Rhs = []ast.Expr{r2}
		} else {
			n.Rhs = p.rvAll(x.Rhs)
		}
		return []ast.Stmt{n}
	}
	if len(x.Lhs) == 1 {
		l, r := x.Lhs[0], x.Rhs[0]
		if p.constOrNil(r) || !p.plainTyped(l, r) {
			return []ast.Stmt{assign(p.storeLHS(l), p.rv(r))}
		}
		b := &ast.BlockStmt{}
		v := p.tmpName("v")
		if p.hasCall(l) && p.hasCall(r) {
			if _, isMap := p.isMapIdx(l); !isMap {
				ptr := p.tmpName("p")
				b.List = append(b.List, define([]ast.Expr{ptr}, []ast.Expr{addr(p.lv(l))}))
				b.List = append(b.List, define([]ast.Expr{v}, []ast.Expr{p.rv(r)}))
				b.List = append(b.List, assign(&ast.StarExpr{X: call(p.rt("Wp"), ptr, p.site(l, "write"))}, v))
				return []ast.Stmt{b}
			}
		}
		b.List = append(b.List, define([]ast.Expr{v}, []ast.Expr{p.rv(r)}))
		b.List = append(b.List, assign(p.storeLHS(l), v))
		return []ast.Stmt{b}
	}
	// tuple
	b := &ast.BlockStmt{}
	vals := make([]ast.Expr, len(x.Lhs))
	if len(x.Rhs) == 1 {
		for i, l := range x.Lhs {
			if isBlank(l) {
				vals[i] = id("_")
			} else {
				vals[i] = p.tmpName("v")
			}
		}
		var r ast.Expr
		if r2, ok := p.recv2(x); ok {
			r = r2
		} else {
			r = p.rv(x.Rhs[0])
		}
		b.List = append(b.List, define(append([]ast.Expr(nil), vals...), []ast.Expr{r}))
	} else {
		var tl, tr []ast.Expr
		for i, r := range x.Rhs {
			if p.constOrNil(r) {
				vals[i] = r
				continue
			}
			if isBlank(x.Lhs[i]) {
				tl, tr = append(tl, id("_")), append(tr, p.rv(r))
				continue
			}
			v := p.tmpName("v")
			vals[i] = v
			tl, tr = append(tl, v), append(tr, p.rv(r))
		}
		newv := false
		for _, l := range tl {
			newv = newv || !isBlank(l)
		}
		if len(tl) > 0 {
			if newv {
				b.List = append(b.List, define(tl, tr))
			} else {
				b.List = append(b.List, &ast.AssignStmt{Lhs: tl, Tok: token.ASSIGN, Rhs: tr})
			}
		}
	}
	var stores []ast.Stmt
	for i, l := range x.Lhs {
		if isBlank(l) {
			continue
		}
		if ix, ok := p.isMapIdx(l); ok {
			m, k := p.tmpName("m"), p.tmpName("k")
			b.List = append(b.List, define([]ast.Expr{m, k}, []ast.Expr{p.rv(ix.X), p.mapKey(ix)}))
			stores = append(stores, assign(&ast.IndexExpr{X: call(p.rt("MW"), m, p.site(l, "map write")), Index: k}, vals[i]))
		} else if p.needsStore(l) {
			ptr := p.tmpName("p")
			b.List = append(b.List, define([]ast.Expr{ptr}, []ast.Expr{addr(p.lv(l))}))
			stores = append(stores, assign(&ast.StarExpr{X: call(p.rt("Wp"), ptr, p.site(l, "write"))}, vals[i]))
		} else if _, ok := unparen(l).(*ast.Ident); ok {
			stores = append(stores, assign(l, vals[i]))
		} else {
			ptr := p.tmpName("p")
			b.List = append(b.List, define([]ast.Expr{ptr}, []ast.Expr{addr(p.lv(l))}))
			stores = append(stores, assign(&ast.StarExpr{X: ptr}, vals[i]))
		}
	}
	b.List = append(b.List, stores...)
	return []ast.Stmt{b}
}

// plainTyped: a temporary declared with := from r can be assigned to l.
func (p *pkgInstr) plainTyped(l, r ast.Expr) bool {
	lt, rt := p.typ(l), p.typ(r)
	if lt == nil || rt == nil {
		return false
	}
	if types.Identical(lt, rt) {
		// an untyped boolean or shift is recorded with its final type
		if b, ok := rt.(*types.Basic); ok {
			return b.Info()&types.IsUntyped == 0
		}
		if _, isNamed := rt.(*types.Named); isNamed {
			if _, isBasic := rt.Underlying().(*types.Basic); isBasic {
				switch unparen(r).(type) {
				case *ast.BinaryExpr, *ast.UnaryExpr:
					return false
				}
			}
		}
		switch unparen(r).(type) {
		case *ast.BinaryExpr:
			if b, ok := rt.Underlying().(*types.Basic); ok && b.Kind() != types.Bool && b.Kind() != types.String && b.Kind() != types.Int {
				return false // constant shifts and the like
			}
		}
		return true
	}
	if b, ok := rt.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return false
	}
	if tv, ok := p.info.Types[r]; ok {
		if _, isTuple := tv.Type.(*types.Tuple); isTuple {
			return false
		}
	}
	return true
}

func (p *pkgInstr) opAssign(l ast.Expr, op token.Token, r ast.Expr, at ast.Node) []ast.Stmt {
	if !p.needsStore(l) {
		return []ast.Stmt{assign(p.plainLHS(l), &ast.BinaryExpr{X: p.rvKeep(l), Op: op, Y: &ast.ParenExpr{X: p.rv(r)}})}
	}
	b := &ast.BlockStmt{}
	var y ast.Expr = &ast.ParenExpr{X: p.rv(r)}
	if p.hasCall(r) && !p.constOrNil(r) {
		v := p.tmpName("y")
		b.List = append(b.List, define([]ast.Expr{v}, []ast.Expr{p.rv(r)}))
		y = v
	}
	v := p.tmpName("v")
	if ix, ok := p.isMapIdx(l); ok {
		m, k := p.tmpName("m"), p.tmpName("k")
		b.List = append(b.List, define([]ast.Expr{m, k}, []ast.Expr{p.rv(ix.X), p.mapKey(ix)}))
		b.List = append(b.List, define([]ast.Expr{v}, []ast.Expr{&ast.BinaryExpr{
			X: &ast.IndexExpr{X: call(p.rt("MR"), m, p.site(l, "map read")), Index: k}, Op: op, Y: y}}))
		b.List = append(b.List, assign(&ast.IndexExpr{X: call(p.rt("MW"), m, p.site(l, "map write")), Index: k}, v))
		return []ast.Stmt{b}
	}
	ptr := p.tmpName("p")
	b.List = append(b.List, define([]ast.Expr{ptr}, []ast.Expr{addr(p.lv(l))}))
	b.List = append(b.List, define([]ast.Expr{v}, []ast.Expr{&ast.BinaryExpr{
		X: call(p.rt("R"), ptr, p.site(l, "read")), Op: op, Y: y}}))
	b.List = append(b.List, assign(&ast.StarExpr{X: call(p.rt("Wp"), ptr, p.site(l, "write"))}, v))
	return []ast.Stmt{b}
}

// rvKeep is the value of an untracked assignable expression.
func (p *pkgInstr) rvKeep(l ast.Expr) ast.Expr { return p.lv(l) }

func (p *pkgInstr) stmt(s ast.Stmt) []ast.Stmt {
	one := func(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }
	switch x := s.(type) {
	case *ast.AssignStmt:
		if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
			// keep an untracked op-assignment as it is
			if !p.needsStore(x.Lhs[0]) {
				return one(&ast.AssignStmt{Lhs: []ast.Expr{p.plainLHS(x.Lhs[0])}, Tok: x.Tok, Rhs: p.rvAll(x.Rhs)})
			}
		}
		return p.assignStmt(x)
	case *ast.IncDecStmt:
		if !p.needsStore(x.X) {
			return one(&ast.IncDecStmt{X: p.plainLHS(x.X), Tok: x.Tok})
		}
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		return p.opAssign(x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"}, x)
	case *ast.ExprStmt, *ast.SendStmt:
		return one(p.simple(s))
	case *ast.BlockStmt:
		return one(p.block(x))
	case *ast.IfStmt:
		n := &ast.IfStmt{Init: p.simple(x.Init), Cond: p.rv(x.Cond), Body: p.block(x.Body)}
		if x.Else != nil {
			e := p.stmt(x.Else)
			if len(e) == 1 {
				n.Else = e[0]
			} else {
				n.Else = &ast.BlockStmt{List: e}
			}
		}
		return one(n)
	case *ast.ForStmt:
		n := &ast.ForStmt{Init: p.simple(x.Init), Cond: p.rv(x.Cond), Post: p.simple(x.Post)}
		n.Body = p.body(x.Body, x)
		return one(n)
	case *ast.RangeStmt:
		return one(p.rangeStmt(x))
	case *ast.ReturnStmt:
		return one(&ast.ReturnStmt{Results: p.rvAll(x.Results)})
	case *ast.DeferStmt:
		c := p.rv(x.Call)
		if ce, ok := c.(*ast.CallExpr); ok && p.builtin(x.Call) == "" {
			return one(&ast.DeferStmt{Call: ce})
		}
		return one(x)
	case *ast.GoStmt:
		return one(p.goStmt(x))
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return one(p.selectStmt(sel, x.Label))
		}
		in := p.stmt(x.Stmt)
		var first ast.Stmt
		if len(in) == 1 {
			first = in[0]
		} else {
			first = &ast.BlockStmt{List: in}
		}
		return one(&ast.LabeledStmt{Label: x.Label, Stmt: first})
	case *ast.SwitchStmt:
		n := &ast.SwitchStmt{Init: p.simple(x.Init), Tag: p.rv(x.Tag), Body: &ast.BlockStmt{}}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			n.Body.List = append(n.Body.List, &ast.CaseClause{List: caseList(cc.List, p.rvAll(cc.List)), Body: p.stmts(cc.Body)})
		}
		return one(n)
	case *ast.TypeSwitchStmt:
		n := &ast.TypeSwitchStmt{Init: p.simple(x.Init), Body: &ast.BlockStmt{}}
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			n.Assign = &ast.ExprStmt{X: p.rv(a.X)}
		case *ast.AssignStmt:
			n.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: p.rvAll(a.Rhs)}
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			n.Body.List = append(n.Body.List, &ast.CaseClause{List: cc.List, Body: p.stmts(cc.Body)})
		}
		return one(n)
	case *ast.SelectStmt:
		return one(p.selectStmt(x, nil))
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			n := &ast.GenDecl{Tok: g.Tok, Lparen: g.Lparen, Rparen: g.Rparen}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				n.Specs = append(n.Specs, &ast.ValueSpec{Names: vs.Names, Type: vs.Type, Values: p.rvAllNil(vs.Values)})
			}
			return one(&ast.DeclStmt{Decl: n})
		}
		return one(x)
	}
	return one(s)
}

func (p *pkgInstr) rvAllNil(es []ast.Expr) []ast.Expr {
	if es == nil {
		return nil
	}
	return p.rvAll(es)
}

func caseList(orig, n []ast.Expr) []ast.Expr {
	if orig == nil {
		return nil
	}
	return n
}

func (p *pkgInstr) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	n := &ast.RangeStmt{Key: x.Key, Value: x.Value, Tok: x.Tok}
	if x.Tok == token.ASSIGN {
		if x.Key != nil {
			n.Key = p.plainLHS(x.Key)
		}
		if x.Value != nil {
			n.Value = p.plainLHS(x.Value)
		}
	}
	n.Body = p.body(x.Body, x)
	t := core(p.typ(x.X))
	switch t.(type) {
	case *types.Map:
		n.X = call(p.rt("Map"), p.rv(x.X), p.site(x, "map range"))
	case *types.Slice:
		if x.Value != nil && !isBlank(x.Value) {
			n.X = call(p.rt("Slice"), p.rv(x.X), p.site(x, "range read"))
		} else {
			n.X = p.rv(x.X)
		}
	case *types.Chan:
		n.X = call(p.rt("ChRange"), p.rv(x.X))
	case *types.Array:
		if tv := p.info.Types[x.X]; tv.Addressable() && x.Value == nil {
			n.X = p.lv(x.X)
		} else {
			n.X = p.rv(x.X)
		}
	default:
		n.X = p.rv(x.X)
	}
	return n
}

func (p *pkgInstr) goStmt(x *ast.GoStmt) ast.Stmt {
	st := p.site(x, "go")
	c := x.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: call(p.rt("Go"), p.rv(fl), st)}
		}
	}
	b := &ast.BlockStmt{}
	rw, ok := p.rv(c).(*ast.CallExpr)
	if !ok {
		return x
	}
	if p.builtin(c) != "" {
		b.List = append(b.List, &ast.ExprStmt{X: call(p.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: rw}}}}, st)})
		return b
	}
	f := p.tmpName("f")
	var fe ast.Expr = f
	if p.callee(c) != nil && p.info.Selections[selOf(c.Fun)] == nil {
		fe = rw.Fun // plain function, possibly generic
	} else {
		b.List = append(b.List, define([]ast.Expr{f}, []ast.Expr{rw.Fun}))
	}
	in := &ast.CallExpr{Fun: fe, Ellipsis: rw.Ellipsis}
	for i, a := range rw.Args {
		if p.constOrNil(c.Args[i]) {
			in.Args = append(in.Args, a)
			continue
		}
		v := p.tmpName("a")
		b.List = append(b.List, define([]ast.Expr{v}, []ast.Expr{a}))
		in.Args = append(in.Args, v)
	}
	b.List = append(b.List, &ast.ExprStmt{X: call(p.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: in}}}}, st)})
	return b
}

func selOf(e ast.Expr) *ast.SelectorExpr {
	s, _ := unparen(e).(*ast.SelectorExpr)
	return s
}

func (p *pkgInstr) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	b := &ast.BlockStmt{}
	i, v, ok := p.tmpName("i"), p.tmpName("v"), p.tmpName("ok")
	sw := &ast.SwitchStmt{Tag: i, Body: &ast.BlockStmt{}}
	sel := call(p.rt("Select"))
	hasDef := "false"
	var args []ast.Expr
	k := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: p.stmts(cc.Body)})
			continue
		}
		cl := &ast.CaseClause{List: []ast.Expr{num(k)}}
		k++
		ch := p.tmpName("c")
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			b.List = append(b.List, define([]ast.Expr{ch}, []ast.Expr{p.rv(s.Chan)}))
			args = append(args, call(call(p.rt("SelSend"), ch), p.rv(s.Value)))
		case *ast.ExprStmt:
			u := unparen(s.X).(*ast.UnaryExpr)
			b.List = append(b.List, define([]ast.Expr{ch}, []ast.Expr{p.rv(u.X)}))
			args = append(args, call(p.rt("SelRecv"), ch))
		case *ast.AssignStmt:
			u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
			b.List = append(b.List, define([]ast.Expr{ch}, []ast.Expr{p.rv(u.X)}))
			args = append(args, call(p.rt("SelRecv"), ch))
			rhs := []ast.Expr{call(p.rt("SelVal"), ch, v)}
			if len(s.Lhs) == 2 {
				rhs = append(rhs, ok)
			}
			lhs := s.Lhs
			if s.Tok == token.ASSIGN {
				lhs = nil
				for _, l := range s.Lhs {
					lhs = append(lhs, p.storeLHS(l))
				}
			}
			cl.Body = append(cl.Body, &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs})
		}
		cl.Body = append(cl.Body, p.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, cl)
	}
	sel.Args = append([]ast.Expr{id(hasDef)}, args...)
	b.List = append(b.List, define([]ast.Expr{i, v, ok}, []ast.Expr{sel}))
	b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id("_"), id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v, ok}})
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	b.List = append(b.List, last)
	return b
}

// ---------------------------------------------------------------- files and packages

// PkgSrc is a package to instrument.
type PkgSrc struct {
	Path, Dir string
	Files     []string // absolute paths
	IsMain    bool
	OutPkg    string // package clause of the output ("" = unchanged)
	Imports   map[string]string
}

// Skip names what must stay as written: "file", or "file#declIndex".
type Skip map[string]bool

// Out is an instrumented package.
type Out struct {
	Files map[string][]byte // original path -> new source
	Extra []byte            // additional file
	// for every file, first line of each declaration in the new source
	DeclLines map[string][]int
	DeclIdx   map[string][]int
}

func instrument(src PkgSrc, imp types.Importer, sites *Sites, skip Skip) (*Out, error) {
	fset := token.NewFileSet()
	p := &pkgInstr{fset: fset, info: newInfo(), path: src.Path, sites: sites, tracked: map[*types.Var]bool{}, isMain: src.IsMain}
	var files []*ast.File
	for _, f := range src.Files {
		a, err := parser.ParseFile(fset, f, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, a)
	}
	conf := types.Config{Importer: imp, GoVersion: "go1.23"}
	pkg, err := conf.Check(src.Path, fset, files, p.info)
	if err != nil {
		return nil, err
	}
	p.pkg = pkg
	for _, f := range files {
		p.findTracked(f)
	}
	out := &Out{Files: map[string][]byte{}, DeclLines: map[string][]int{}, DeclIdx: map[string][]int{}}

	// initialisation order
	specOf := map[*types.Var]*ast.ValueSpec{}
	var plain []*types.Var
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				for _, n := range vs.Names {
					v, _ := p.info.Defs[n].(*types.Var)
					if v == nil {
						continue
					}
					specOf[v] = vs
					if len(vs.Values) == 0 && n.Name != "_" {
						plain = append(plain, v)
					}
				}
			}
		}
	}
	initOf := map[ast.Expr]int{}
	for i, in := range p.info.InitOrder {
		initOf[in.Rhs] = i
	}
	initLhs := make([][]string, len(p.info.InitOrder))
	for i, in := range p.info.InitOrder {
		for _, v := range in.Lhs {
			initLhs[i] = append(initLhs[i], v.Name())
		}
	}
	inits := 0
	var resetCalls []string
	for fi, f := range files {
		path := src.Files[fi]
		p.file = rel(path)
		p.usedRT = false
		p.extra = map[string]string{}
		raw, _ := os.ReadFile(path)
		wholeSkip := skip[p.file] || bytes.Contains(raw, []byte("//go:embed")) || bytes.Contains(raw, []byte("//go:linkname")) || bytes.Contains(raw, []byte("import \"C\""))
		nf := &ast.File{Name: id(f.Name.Name)}
		if src.OutPkg != "" {
			nf.Name = id(src.OutPkg)
		}
		var decls []ast.Decl
		var idx []int
		var initFns []ast.Decl
		for di, d := range f.Decls {
			dskip := wholeSkip || skip[fmt.Sprintf("%s#%d", p.file, di)]
			switch x := d.(type) {
			case *ast.FuncDecl:
				nd := *x
				nd.Doc = nil
				p.fn = x.Name.Name
				if x.Recv != nil && len(x.Recv.List) == 1 {
					p.fn = types.ExprString(x.Recv.List[0].Type) + "." + p.fn
				}
				if !dskip && x.Body != nil {
					nd.Body = p.body(x.Body, x)
				}
				if x.Recv == nil && x.Name.Name == "init" {
					inits++
					nd.Name = id(fmt.Sprintf("zzUserInit%d", inits))
					resetCalls = append(resetCalls, "")
				}
				decls, idx = append(decls, &nd), append(idx, di)
			case *ast.GenDecl:
				nd := &ast.GenDecl{Tok: x.Tok, Lparen: x.Lparen, Rparen: x.Rparen}
				p.fn = "init"
				for _, sp := range x.Specs {
					switch s := sp.(type) {
					case *ast.ImportSpec:
						ns := &ast.ImportSpec{Name: s.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: s.Path.Value}}
						ip, _ := strconv.Unquote(s.Path.Value)
						r, ok := importRepl[ip]
						if !ok && src.IsMain {
							r, ok = mainImportRepl[ip]
						}
						if ok {
							if ns.Name == nil {
								ns.Name = id(defaultName[ip])
							}
							ns.Path.Value = strconv.Quote(r)
						}
						nd.Specs = append(nd.Specs, ns)
					case *ast.ValueSpec:
						ns := &ast.ValueSpec{Names: s.Names, Type: s.Type, Values: s.Values}
						if x.Tok == token.VAR {
							if !dskip {
								ns.Values = p.rvAllNil(s.Values)
							}
							for vi, v := range s.Values {
								k, ok := initOf[v]
								if !ok {
									continue
								}
								var lhs []ast.Expr
								for _, n := range initLhs[k] {
									lhs = append(lhs, id(n))
								}
								if len(lhs) == 0 {
									lhs = []ast.Expr{id("_")}
								}
								allBlank := true
								for _, l := range lhs {
									allBlank = allBlank && isBlank(l)
								}
								if allBlank && p.constOrNil(v) {
									continue
								}
								initFns = append(initFns, &ast.FuncDecl{Name: id(fmt.Sprintf("zzInit%d", k)),
									Type: &ast.FuncType{Params: &ast.FieldList{}},
									Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{ns.Values[vi]}}}}})
							}
						}
						if x.Tok == token.VAR && !dskip && len(s.Values) > 0 {
							if typed := p.typedVars(s); typed != nil {
								// initialised by the simulated process only
								nd.Specs = append(nd.Specs, typed...)
								if len(typed) > 1 && nd.Lparen == token.NoPos {
									nd.Lparen = x.Pos()
								}
								continue
							}
						}
						nd.Specs = append(nd.Specs, ns)
					case *ast.TypeSpec:
						ns := *s
						ns.Doc, ns.Comment = nil, nil
						nd.Specs = append(nd.Specs, &ns)
					}
				}
				decls, idx = append(decls, nd), append(idx, di)
			}
		}
		for _, d := range initFns {
			decls, idx = append(decls, d), append(idx, -1)
		}
		if p.usedRT {
			im := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id(simName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simPath)}}}}
			decls = append([]ast.Decl{im}, decls...)
			idx = append([]int{-1}, idx...)
		}
		for _, path := range sortedVals(p.extra) {
			im := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id(p.extra[path]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}}}
			decls = append([]ast.Decl{im}, decls...)
			idx = append([]int{-1}, idx...)
		}
		nf.Decls = decls
		clearPos(reflect.ValueOf(nf), map[uintptr]bool{})
		var buf bytes.Buffer
		buf.WriteString("// Code generated by vsim from " + path + "; DO NOT EDIT.\n\n")
		fmt.Fprintf(&buf, "package %s\n\n", nf.Name.Name)
		var lines []int
		for _, d := range nf.Decls {
			lines = append(lines, bytes.Count(buf.Bytes(), []byte("\n"))+1)
			if err := printer.Fprint(&buf, token.NewFileSet(), d); err != nil {
				return nil, fmt.Errorf("print %s: %v", path, err)
			}
			buf.WriteString("\n\n")
		}
		out.Files[path] = buf.Bytes()
		out.DeclLines[path] = lines
		out.DeclIdx[path] = idx
	}
	// reset function
	var ex bytes.Buffer
	name := pkg.Name()
	if src.OutPkg != "" {
		name = src.OutPkg
	}
	var deps []string
	for _, im := range pkg.Imports() {
		if inModule(im.Path()) {
			deps = append(deps, strconv.Quote(im.Path()))
		}
	}
	sort.Strings(deps)
	fmt.Fprintf(&ex, "package %s\n\nimport zzsim %q\n\nfunc init() {\n\tzzsim.RegisterPkg(%q, []string{%s}, func() {\n", name, simPath, src.Path, strings.Join(deps, ", "))
	sort.SliceStable(plain, func(i, j int) bool { return plain[i].Pos() < plain[j].Pos() })
	for _, v := range plain {
		fmt.Fprintf(&ex, "\t\tzzsim.Zero(&%s)\n", v.Name())
	}
	have := map[string]bool{}
	for _, b := range out.Files {
		for i := range p.info.InitOrder {
			if bytes.Contains(b, []byte(fmt.Sprintf("func zzInit%d()", i))) {
				have[fmt.Sprintf("zzInit%d", i)] = true
			}
		}
	}
	for i := range p.info.InitOrder {
		if n := fmt.Sprintf("zzInit%d", i); have[n] {
			fmt.Fprintf(&ex, "\t\t%s()\n", n)
		}
	}
	for i := 1; i <= inits; i++ {
		fmt.Fprintf(&ex, "\t\tzzUserInit%d()\n", i)
	}
	fmt.Fprintf(&ex, "\t})\n}\n")
	if src.IsMain {
		fmt.Fprintf(&ex, "\n// SimMain is the program's main function.\nfunc SimMain() { main() }\n")
	}
	out.Extra = ex.Bytes()
	return out, nil
}

func sortedVals(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// typedVars returns declarations of the variables of s with their types and
// without their values, or nil if a type cannot be written in this file.
func (p *pkgInstr) typedVars(s *ast.ValueSpec) []ast.Spec {
	var out []ast.Spec
	add := map[string]string{}
	for _, n := range s.Names {
		var t types.Type
		if v, _ := p.info.Defs[n].(*types.Var); v != nil {
			t = v.Type()
		}
		if n.Name == "_" {
			// a compile-time assertion, or an effect that the reset repeats
			return nil
		}
		if t == nil || !p.writable(t, map[types.Type]bool{}) {
			return nil
		}
		str := types.TypeString(t, func(o *types.Package) string {
			if o == p.pkg {
				return ""
			}
			path := o.Path()
			if r, ok := importRepl[path]; ok {
				path = r
			} else if p.isMain {
				if r, ok := mainImportRepl[path]; ok {
					path = r
				}
			}
			name := "zzt" + strconv.Itoa(len(p.extra)+len(add))
			if have, ok := p.extra[path]; ok {
				return have
			}
			if have, ok := add[path]; ok {
				return have
			}
			add[path] = name
			return name
		})
		e, err := parser.ParseExpr(str)
		if err != nil {
			return nil
		}
		out = append(out, &ast.ValueSpec{Names: []*ast.Ident{id(n.Name)}, Type: e})
	}
	for k, v := range add {
		p.extra[k] = v
	}
	return out
}

// writable says whether the type can be named from this package.
func (p *pkgInstr) writable(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	switch x := t.(type) {
	case *types.Basic:
		return x.Kind() != types.Invalid && x.Kind() != types.UnsafePointer && x.Info()&types.IsUntyped == 0
	case *types.Pointer:
		return p.writable(x.Elem(), seen)
	case *types.Slice:
		return p.writable(x.Elem(), seen)
	case *types.Array:
		return p.writable(x.Elem(), seen)
	case *types.Map:
		return p.writable(x.Key(), seen) && p.writable(x.Elem(), seen)
	case *types.Chan:
		return p.writable(x.Elem(), seen)
	case *types.Signature:
		if x.TypeParams().Len() > 0 {
			return false
		}
		for _, tp := range []*types.Tuple{x.Params(), x.Results()} {
			for i := 0; i < tp.Len(); i++ {
				if !p.writable(tp.At(i).Type(), seen) {
					return false
				}
			}
		}
		return true
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			if !f.Exported() && f.Pkg() != p.pkg || !p.writable(f.Type(), seen) {
				return false
			}
		}
		return true
	case *types.Interface:
		for i := 0; i < x.NumMethods(); i++ {
			m := x.Method(i)
			if !m.Exported() && m.Pkg() != p.pkg || !p.writable(m.Type(), seen) {
				return false
			}
		}
		for i := 0; i < x.NumEmbeddeds(); i++ {
			if !p.writable(x.EmbeddedType(i), seen) {
				return false
			}
		}
		return true
	case *types.Alias:
		return p.writable(types.Unalias(x), seen) && p.writableObj(x.Obj())
	case *types.Named:
		if a := x.TypeArgs(); a != nil {
			for i := 0; i < a.Len(); i++ {
				if !p.writable(a.At(i), seen) {
					return false
				}
			}
		}
		return p.writableObj(x.Obj())
	}
	return false
}

func (p *pkgInstr) writableObj(o *types.TypeName) bool {
	if o.Pkg() == nil {
		return true // error, any
	}
	if o.Parent() != o.Pkg().Scope() {
		return false
	}
	if o.Pkg() == p.pkg {
		return true
	}
	return o.Exported() && (!strings.Contains(o.Pkg().Path()+"/", "/internal/") && !strings.HasPrefix(o.Pkg().Path(), "internal/") || inModule(o.Pkg().Path()))
}

func rel(path string) string {
	r, err := filepath.Rel(repoDir, path)
	if err != nil {
		return path
	}
	return r
}

// clearPos removes positions, so that the printer lays out the code by itself;
// positions whose presence carries meaning are kept as 1.
func clearPos(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope:
			return
		}
		seen[v.Pointer()] = true
		clearPos(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			clearPos(v.Elem(), seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			clearPos(v.Index(i), seen)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == reflect.TypeOf(token.Pos(0)) {
				if !f.CanSet() {
					continue
				}
				switch t.Field(i).Name {
				case "Ellipsis", "Assign", "Arrow", "Lparen", "Rparen":
					if t.Name() == "Ellipsis" {
						f.SetInt(0)
					} else if f.Int() != 0 {
						f.SetInt(1)
					}
				default:
					f.SetInt(0)
				}
				continue
			}
			if t.Field(i).Type == reflect.TypeOf((*ast.CommentGroup)(nil)) {
				if f.CanSet() {
					f.Set(reflect.Zero(f.Type()))
				}
				continue
			}
			clearPos(f, seen)
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

var _ = strings.Contains
