package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values. A value is either a constant, a zero value, a structured value (struct/list with known parts), an
// address of an abstract object, a function, or a provenance term: how it was obtained from the inputs of the analysed
// entry point (field of, element of, result of call at site, ...). Values are hash-consed; equality is identity.
type Kind uint8

const (
	KConst Kind = iota
	KNil
	KZero
	KSym
	KApp
	KStruct
	KList
	KAddr
	KFunc
	KIface
	KTuple
)

type V struct {
	id   int
	k    Kind
	op   string
	args []*V
	c    constant.Value
	t    types.Type
	fn   *ssa.Function
	idx  int // for selectors: field index
}

var vtab = map[string]*V{}
var vlist []*V

func intern(k Kind, op string, args []*V, c constant.Value, t types.Type, fn *ssa.Function, idx int) *V {
	var b strings.Builder
	b.WriteByte(byte('A' + k))
	b.WriteString(op)
	b.WriteByte('|')
	for _, a := range args {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(',')
	}
	if c != nil {
		b.WriteString("c" + strconv.Itoa(int(c.Kind())) + c.ExactString())
	}
	if t != nil {
		b.WriteString("t" + types.TypeString(t, nil))
	}
	if fn != nil {
		b.WriteString(fmt.Sprintf("f%p", fn))
	}
	key := b.String()
	if v, ok := vtab[key]; ok {
		return v
	}
	v := &V{id: len(vlist), k: k, op: op, args: args, c: c, t: t, fn: fn, idx: idx}
	vtab[key] = v
	vlist = append(vlist, v)
	return v
}

func Const(c constant.Value) *V         { return intern(KConst, "", nil, c, nil, nil, 0) }
func Int(n int64) *V                    { return Const(constant.MakeInt64(n)) }
func Str(s string) *V                   { return Const(constant.MakeString(s)) }
func Bool(b bool) *V                    { return Const(constant.MakeBool(b)) }
func Sym(s string) *V                   { return intern(KSym, s, nil, nil, nil, nil, 0) }
func App(op string, args ...*V) *V      { return simplify(op, args) }
func Tuple(vs ...*V) *V                 { return intern(KTuple, "", vs, nil, nil, nil, 0) }
func List(vs ...*V) *V                  { return intern(KList, "", vs, nil, nil, nil, 0) }
func Fn(f *ssa.Function, bind ...*V) *V { return intern(KFunc, "", bind, nil, nil, f, 0) }
func Iface(t types.Type, v *V) *V       { return intern(KIface, "", []*V{v}, nil, t, nil, 0) }
func rawApp(op string, args ...*V) *V   { return intern(KApp, op, args, nil, nil, nil, 0) }
func (v *V) is(op string) bool          { return v.k == KApp && v.op == op }
func (v *V) hasOp(pfx string) bool      { return v.k == KApp && strings.HasPrefix(v.op, pfx) }

var vNil = intern(KNil, "", nil, nil, nil, nil, 0)

func Zero(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsNumeric != 0:
			return Int(0)
		}
		return vNil
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return vNil
	}
	return intern(KZero, "", nil, nil, t, nil, 0)
}

func typeName(t types.Type) string {
	for {
		t = types.Unalias(t)
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		break
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	return strings.ReplaceAll(s, modPath+"/", "")
}

// FieldSel is a struct-field selector of an address path.
func FieldSel(st types.Type, i int) *V {
	s := st.Underlying().(*types.Struct)
	n := "sel:" + typeName(st) + "." + s.Field(i).Name()
	v := intern(KSym, n, nil, nil, nil, nil, i).withT(st)
	fieldSels[n] = v
	return v
}

var fieldSels = map[string]*V{}

func (v *V) withT(t types.Type) *V {
	if v.t == nil {
		v.t = t
	}
	return v
}

func isFieldSel(v *V) bool { return v.k == KSym && strings.HasPrefix(v.op, "sel:") }

func fieldName(sel *V) string {
	i := strings.LastIndexByte(sel.op, '.')
	return sel.op[i+1:]
}

func Addr(obj *V, path ...*V) *V {
	if obj.k == KAddr {
		return intern(KAddr, "", append(append([]*V{}, obj.args...), path...), nil, nil, nil, 0)
	}
	if len(path) == 0 && obj.k != KApp && obj.k != KSym {
		return obj
	}
	if len(path) == 0 {
		// plain object: represented as an address with an empty path only for allocated objects
		if obj.is("alloc") || obj.hasOp("global:") {
			return intern(KAddr, "", []*V{obj}, nil, nil, nil, 0)
		}
		return obj
	}
	return intern(KAddr, "", append([]*V{obj}, path...), nil, nil, nil, 0)
}

// project reads a component of a value.
func project(v *V, sel *V) *V {
	switch v.k {
	case KStruct:
		// overrides: pairs (sel,val) after base
		unsure := false
		for i := 1; i+1 < len(v.args); i += 2 {
			if v.args[i] == sel {
				return v.args[i+1]
			}
			if !isFieldSel(sel) && !(v.args[i].k == KConst && sel.k == KConst) {
				unsure = true
			}
		}
		if unsure {
			return rawApp("index", v, sel)
		}
		return project(v.args[0], sel)
	case KZero:
		if isFieldSel(sel) {
			if st, ok := v.t.Underlying().(*types.Struct); ok && sel.idx < st.NumFields() {
				return Zero(st.Field(sel.idx).Type())
			}
		} else if at, ok := v.t.Underlying().(*types.Array); ok {
			return Zero(at.Elem())
		}
	case KList:
		if n, ok := intOf(sel); ok && n >= 0 && int(n) < len(v.args) {
			return v.args[n]
		}
	case KIface:
		return project(v.args[0], sel)
	}
	if v.is("copy") { // a list of its own with the same contents
		return project(v.args[0], sel)
	}
	if isFieldSel(sel) {
		if v.is("coin") {
			switch fieldName(sel) {
			case "Denom":
				return v.args[0]
			case "Amount":
				return v.args[1]
			}
		}
		return rawApp("field:"+strings.TrimPrefix(sel.op, "sel:"), v)
	}
	return App("index", v, sel)
}

// update returns v with one component replaced.
func update(v *V, sel *V, nv *V) *V {
	switch v.k {
	case KStruct:
		args := []*V{v.args[0]}
		type pr struct{ s, v *V }
		ps := []pr{}
		for i := 1; i+1 < len(v.args); i += 2 {
			s := v.args[i]
			if s == sel {
				continue
			}
			if !isFieldSel(sel) && !(s.k == KConst && sel.k == KConst) {
				// may alias: forget the older one's value
				ps = append(ps, pr{s, rawApp("maybe", v.args[i+1], nv)})
				continue
			}
			ps = append(ps, pr{s, v.args[i+1]})
		}
		ps = append(ps, pr{sel, nv})
		sort.Slice(ps, func(i, j int) bool { return ps[i].s.id < ps[j].s.id })
		for _, p := range ps {
			args = append(args, p.s, p.v)
		}
		return intern(KStruct, "", args, nil, nil, nil, 0)
	case KList:
		if n, ok := intOf(sel); ok && n >= 0 && int(n) < len(v.args) {
			a := append([]*V{}, v.args...)
			a[n] = nv
			return List(a...)
		}
	case KIface:
		return Iface(v.t, update(v.args[0], sel, nv))
	}
	if v.is("copy") && v.args[0].k == KList {
		return update(v.args[0], sel, nv)
	}
	return intern(KStruct, "", []*V{v, sel, nv}, nil, nil, nil, 0)
}

func intOf(v *V) (int64, bool) {
	if v.k == KConst && v.c.Kind() == constant.Int {
		return constant.Int64Val(v.c)
	}
	return 0, false
}

func strOf(v *V) (string, bool) {
	if v.k == KConst && v.c.Kind() == constant.String {
		return constant.StringVal(v.c), true
	}
	return "", false
}

func boolOf(v *V) (bool, bool) {
	if v.k == KConst && v.c.Kind() == constant.Bool {
		return constant.BoolVal(v.c), true
	}
	return false, false
}

// simplify builds an application term, folding constants.
func simplify(op string, args []*V) *V {
	switch op {
	case "not":
		if b, ok := boolOf(args[0]); ok {
			return Bool(!b)
		}
		if args[0].is("not") {
			return args[0].args[0]
		}
	case "len":
		switch a := args[0]; a.k {
		case KList:
			return Int(int64(len(a.args)))
		case KNil:
			return Int(0)
		case KStruct: // elements replaced
			if len(a.args) > 1 && !isFieldSel(a.args[1]) {
				return App("len", a.args[0])
			}
		case KConst:
			if s, ok := strOf(a); ok {
				return Int(int64(len(s)))
			}
		}
		if args[0].is("copy") {
			return App("len", args[0].args[0])
		}
		if args[0].is("append") {
			// length of the base plus the appended elements
			a := args[0]
			return App("bin:+", App("len", a.args[0]), Int(int64(len(a.args)-1)))
		}
	case "eq":
		return mkEq(args[0], args[1])
	case "lt":
		return mkLt(args[0], args[1])
	case "index":
		if args[0].k == KList || args[0].k == KStruct {
			if args[0].k == KList {
				if n, ok := intOf(args[1]); ok && n >= 0 && int(n) < len(args[0].args) {
					return args[0].args[n]
				}
			}
		}
	}
	if strings.HasPrefix(op, "bin:") && len(args) == 2 {
		a, b := args[0], args[1]
		if a.k == KConst && b.k == KConst && a.c.Kind() == b.c.Kind() {
			var t token.Token
			switch op {
			case "bin:+":
				t = token.ADD
			case "bin:-":
				t = token.SUB
			case "bin:*":
				t = token.MUL
			case "bin:/":
				t = token.QUO_ASSIGN
			case "bin:%":
				t = token.REM
			}
			if t != 0 {
				zero := false
				if t == token.QUO_ASSIGN || t == token.REM {
					zero = constant.Sign(b.c) == 0
				}
				if !zero {
					return Const(constant.BinaryOp(a.c, t, b.c))
				}
			}
			if op == "bin:<<" && a.c.Kind() == constant.Int {
				if n, ok := intOf(b); ok && n >= 0 && n < 256 {
					return Const(constant.Shift(a.c, token.SHL, uint(n)))
				}
			}
		}
		switch op {
		case "bin:+":
			if n, ok := intOf(b); ok && n == 0 {
				return a
			}
			if n, ok := intOf(a); ok && n == 0 {
				return b
			}
			// (x + c1) + c2
			if n, ok := intOf(b); ok && a.is("bin:+") {
				if m, ok := intOf(a.args[1]); ok {
					return App("bin:+", a.args[0], Int(n+m))
				}
			}
		case "bin:-":
			if n, ok := intOf(b); ok {
				return App("bin:+", a, Int(-n))
			}
		}
	}
	return rawApp(op, args...)
}

func stripIface(v *V) *V {
	for v.k == KIface {
		v = v.args[0]
	}
	return v
}

func mkEq(a, b *V) *V {
	a, b = stripIface(a), stripIface(b)
	if a.k == KNil || b.k == KNil {
		x := a
		if a.k == KNil {
			x = b
		}
		return mkIsNil(x)
	}
	if a == b {
		return Bool(true)
	}
	if a.k == KConst && b.k == KConst && a.c.Kind() == b.c.Kind() {
		return Bool(constant.Compare(a.c, token.EQL, b.c))
	}
	if bv, ok := boolOf(b); ok {
		if bv {
			return a
		}
		return App("not", a)
	}
	if bv, ok := boolOf(a); ok {
		if bv {
			return b
		}
		return App("not", b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return rawApp("eq", a, b)
}

func mkLt(a, b *V) *V {
	a, b = stripIface(a), stripIface(b)
	if a == b {
		return Bool(false)
	}
	if a.k == KConst && b.k == KConst && a.c.Kind() == b.c.Kind() && a.c.Kind() != constant.Bool {
		return Bool(constant.Compare(a.c, token.LSS, b.c))
	}
	// lengths are never negative
	if n, ok := intOf(b); ok && n <= 0 && a.is("len") {
		return Bool(false)
	}
	if n, ok := intOf(a); ok && n < 0 && b.is("len") {
		return Bool(true)
	}
	return rawApp("lt", a, b)
}

func mkIsNil(x *V) *V {
	x = stripNil(x)
	switch x.k {
	case KNil:
		return Bool(true)
	case KAddr, KFunc, KIface, KStruct, KList, KZero, KConst:
		return Bool(false)
	}
	if x.hasOp("err:") || x.hasOp("global:err:") || x.is("alloc") || x.is("append") || x.is("makemap") {
		return Bool(false)
	}
	if x.is("copy") {
		return mkIsNil(x.args[0])
	}
	if x.is("slice") { // a part of a slice is nil exactly if the slice is
		return mkIsNil(x.args[0])
	}
	return rawApp("isnil", x)
}

func stripNil(x *V) *V {
	return x
}

// printing -----------------------------------------------------------------------------------------------------------

func (v *V) String() string { return v.str(6) }

func (v *V) str(d int) string {
	if v == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	join := func(a []*V) string {
		s := []string{}
		for _, x := range a {
			if x.k == KApp && x.op == "site" {
				continue
			}
			s = append(s, x.str(d-1))
		}
		return strings.Join(s, ",")
	}
	switch v.k {
	case KConst:
		return v.c.String()
	case KNil:
		return "nil"
	case KZero:
		return "zero(" + typeName(v.t) + ")"
	case KSym:
		if strings.HasPrefix(v.op, "sel:") {
			return fieldName(v)
		}
		return v.op
	case KApp:
		if strings.HasPrefix(v.op, "field:") {
			return v.args[0].str(d-1) + "." + v.op[strings.LastIndexByte(v.op, '.')+1:]
		}
		return v.op + "(" + join(v.args) + ")"
	case KStruct:
		s := v.args[0].str(d-1) + "{"
		for i := 1; i+1 < len(v.args); i += 2 {
			s += v.args[i].str(d-1) + ":" + v.args[i+1].str(d-1) + " "
		}
		return s + "}"
	case KList:
		return "[" + join(v.args) + "]"
	case KAddr:
		return "&" + join(v.args)
	case KFunc:
		return "func " + shortFn(v.fn)
	case KIface:
		return v.args[0].str(d)
	case KTuple:
		return "(" + join(v.args) + ")"
	}
	return "?"
}

// mentions tells whether pred holds for v or any of its parts.
func (v *V) mentions(pred func(*V) bool) bool {
	seen := map[*V]bool{}
	var rec func(*V) bool
	rec = func(x *V) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if pred(x) {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(v)
}
