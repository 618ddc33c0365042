package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callees of an instruction: static callee, function-valued package variables, or the repository's implementations of
// an interface method. Function values created here (closures, method values, functions passed as arguments) are
// reported by refs.
func (P *Program) callees(in ssa.CallInstruction) []*ssa.Function {
	c := in.Common()
	if c.IsInvoke() {
		return P.implementations(c.Value.Type().Underlying().(*types.Interface), c.Method)
	}
	if f := P.calleeOf(c); f != nil {
		if o := P.unwrap(f); o != nil {
			return []*ssa.Function{o}
		}
		return []*ssa.Function{f}
	}
	return nil
}

// unwrap gives the declared method behind a synthetic wrapper.
func (P *Program) unwrap(f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" {
		return nil
	}
	if obj, ok := f.Object().(*types.Func); ok {
		if g := P.SSA.FuncValue(obj); g != nil && g != f {
			return g
		}
	}
	return nil
}

type edges struct {
	out map[*ssa.Function]map[*ssa.Function]bool
	in  map[*ssa.Function]map[*ssa.Function]bool
}

// graph is the call graph over repository functions (call edges plus references to function values).
func (P *Program) graph() *edges {
	if P.cg != nil {
		return P.cg
	}
	e := &edges{out: map[*ssa.Function]map[*ssa.Function]bool{}, in: map[*ssa.Function]map[*ssa.Function]bool{}}
	add := func(a, b *ssa.Function) {
		if o := P.unwrap(b); o != nil {
			b = o
		}
		if e.out[a] == nil {
			e.out[a] = map[*ssa.Function]bool{}
		}
		e.out[a][b] = true
		if e.in[b] == nil {
			e.in[b] = map[*ssa.Function]bool{}
		}
		e.in[b][a] = true
	}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range P.callees(ci) {
						add(f, g)
					}
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if fv, ok := (*o).(*ssa.Function); ok {
						add(f, fv)
					}
				}
			}
		}
	}
	P.cg = e
	return e
}

// reaching: all functions from which one of the targets can be reached (targets included).
func (P *Program) reaching(targets map[*ssa.Function]bool) map[*ssa.Function]bool {
	g := P.graph()
	r := map[*ssa.Function]bool{}
	st := []*ssa.Function{}
	for t := range targets {
		r[t] = true
		st = append(st, t)
	}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		for p := range g.in[f] {
			if !r[p] {
				r[p] = true
				st = append(st, p)
			}
		}
	}
	return r
}

// reachable: all functions reachable from the roots.
func (P *Program) reachable(roots ...*ssa.Function) map[*ssa.Function]bool {
	g := P.graph()
	r := map[*ssa.Function]bool{}
	st := []*ssa.Function{}
	for _, t := range roots {
		if t != nil && !r[t] {
			r[t] = true
			st = append(st, t)
		}
	}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		for p := range g.out[f] {
			if !r[p] {
				r[p] = true
				st = append(st, p)
			}
		}
	}
	return r
}

// reachAvoiding: everything block processing reaches without entering the functions given, with how it is reached.
func (P *Program) reachAvoiding(avoid map[*ssa.Function]bool) map[*ssa.Function]*ssa.Function {
	g := P.graph()
	prev := map[*ssa.Function]*ssa.Function{}
	q := []*ssa.Function{}
	for _, r := range P.txRoots() {
		if r != nil && !avoid[r] {
			if _, ok := prev[r]; !ok {
				prev[r] = nil
				q = append(q, r)
			}
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for n := range g.out[f] {
			if _, ok := prev[n]; !ok && !avoid[n] {
				prev[n] = f
				q = append(q, n)
			}
		}
	}
	return prev
}

func wayTo(prev map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	s := []string{}
	for x := f; x != nil; x = prev[x] {
		s = append([]string{shortFn(x)}, s...)
	}
	return strings.Join(s, " -> ")
}

// pathTo gives one call path from a root to a target (for reports).
func (P *Program) pathTo(root, target *ssa.Function) string {
	g := P.graph()
	prev := map[*ssa.Function]*ssa.Function{root: nil}
	q := []*ssa.Function{root}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		if f == target {
			s := []string{}
			for x := f; x != nil; x = prev[x] {
				s = append([]string{shortFn(x)}, s...)
			}
			return strings.Join(s, " -> ")
		}
		for n := range g.out[f] {
			if _, ok := prev[n]; !ok {
				prev[n] = f
				q = append(q, n)
			}
		}
	}
	return ""
}

// confined: f is one of the roots, or an unexported function/closure all of whose users in the repository are confined.
func (P *Program) confined(f *ssa.Function, roots map[*ssa.Function]bool) (bool, *ssa.Function) {
	g := P.graph()
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) (bool, *ssa.Function)
	rec = func(f *ssa.Function) (bool, *ssa.Function) {
		if roots[f] || seen[f] {
			return true, nil
		}
		seen[f] = true
		if f.Parent() != nil {
			if ok, w := rec(f.Parent()); !ok {
				return false, w
			}
			return true, nil
		}
		if f.Object() != nil && f.Object().Exported() && len(g.in[f]) == 0 {
			return false, f
		}
		if len(g.in[f]) == 0 {
			return true, nil // dead code
		}
		if f.Object() != nil && f.Object().Exported() {
			return false, f
		}
		for p := range g.in[f] {
			if ok, w := rec(p); !ok {
				return false, w
			}
		}
		return true, nil
	}
	return rec(f)
}

// storeOps lists every operation on a KVStore in the repository with the store it goes to.
type storeOp struct {
	Fn    *ssa.Function
	In    ssa.CallInstruction
	Op    string
	Store map[string]bool // possible stores; "" when unresolved
}

func (P *Program) storeOps() []storeOp {
	if P.sops != nil {
		return P.sops
	}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				var recv ssa.Value
				op := ""
				if c.IsInvoke() {
					if !strings.HasSuffix(c.Value.Type().String(), "types.KVStore") {
						continue
					}
					recv, op = c.Value, c.Method.Name()
				} else if g := c.StaticCallee(); g != nil && g.Signature.Recv() != nil && (strings.HasPrefix(canonName(g), "(github.com/cosmos/cosmos-sdk/store/prefix.Store)") || strings.HasPrefix(canonName(g), "(*github.com/cosmos/cosmos-sdk/store/cachekv.Store)")) {
					recv, op = c.Args[0], g.Name()
				} else {
					continue
				}
				set := map[string]bool{}
				P.traceStore(recv, set, map[ssa.Value]bool{}, 0)
				P.sops = append(P.sops, storeOp{f, ci, op, set})
			}
		}
	}
	return P.sops
}

func (P *Program) traceStore(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool, d int) {
	if seen[v] || d > 12 {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.MakeInterface:
		P.traceStore(v.X, out, seen, d+1)
	case *ssa.ChangeInterface:
		P.traceStore(v.X, out, seen, d+1)
	case *ssa.TypeAssert:
		P.traceStore(v.X, out, seen, d+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			P.traceStore(e, out, seen, d+1)
		}
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					P.traceStore(s.Val, out, seen, d+1)
				}
			}
			return
		}
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			st := fa.X.Type().Underlying().(*types.Pointer).Elem()
			n := typeName(st) + "." + st.Underlying().(*types.Struct).Field(fa.Field).Name()
			if s, ok := P.storeFields()[n]; ok {
				out[s] = true
				return
			}
			P.traceFieldStores(st, fa.Field, out, seen, d)
			return
		}
		if fv, ok := v.X.(*ssa.FreeVar); ok {
			P.traceFree(fv, out, seen, d)
			return
		}
		out[""] = true
	case *ssa.FreeVar:
		P.traceFree(v, out, seen, d)
	case *ssa.Field:
		st := v.X.Type()
		n := typeName(st) + "." + st.Underlying().(*types.Struct).Field(v.Field).Name()
		if s, ok := P.storeFields()[n]; ok {
			out[s] = true
			return
		}
		P.traceFieldStores(st, v.Field, out, seen, d)
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g != nil {
			switch {
			case g.Name() == "KVStore":
				P.traceStore(v.Call.Args[len(v.Call.Args)-1], out, seen, d+1)
				return
			case strings.HasSuffix(canonName(g), "store/prefix.NewStore"), strings.HasSuffix(canonName(g), "store/cachekv.NewStore"):
				P.traceStore(v.Call.Args[0], out, seen, d+1)
				return
			case P.isRepoFn(g) && g.Blocks != nil:
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
						P.traceStore(r.Results[0], out, seen, d+1)
					}
				}
				return
			}
		}
		if s, ok := storeKeyName(v); ok {
			out[s] = true
			return
		}
		out[""] = true
	case *ssa.Lookup:
		if s, ok := storeKeyName(v); ok {
			out[s] = true
		} else {
			out[""] = true
		}
	case *ssa.Parameter:
		n := 0
		f := v.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == v {
				idx = i
			}
		}
		for _, cf := range P.Funcs {
			if P.unwrap(cf) == f {
				continue
			}
			for _, b := range cf.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, g := range P.callees(ci) {
						if g == f {
							args := ci.Common().Args
							j := idx
							if ci.Common().IsInvoke() {
								j--
							}
							if j >= 0 && j < len(args) {
								n++
								P.traceStore(args[j], out, seen, d+1)
							}
						}
					}
				}
			}
		}
		if n == 0 {
			out[""] = true
		}
	default:
		out[""] = true
	}
}

func (P *Program) traceFree(fv *ssa.FreeVar, out map[string]bool, seen map[ssa.Value]bool, d int) {
	f := fv.Parent()
	idx := -1
	for i, x := range f.FreeVars {
		if x == fv {
			idx = i
		}
	}
	if f.Parent() == nil || idx < 0 {
		out[""] = true
		return
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				bv := mc.Bindings[idx]
				if a, ok := bv.(*ssa.Alloc); ok {
					for _, r := range *a.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == a {
							P.traceStore(s.Val, out, seen, d+1)
						}
					}
				} else {
					P.traceStore(bv, out, seen, d+1)
				}
			}
		}
	}
}

// traceFieldStores follows a struct field holding a store to everything stored into that field.
func (P *Program) traceFieldStores(t types.Type, field int, out map[string]bool, seen map[ssa.Value]bool, d int) {
	n := 0
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.Field == field {
						st := fa.X.Type().Underlying().(*types.Pointer).Elem()
						if types.Identical(st, t) {
							n++
							P.traceStore(s.Val, out, seen, d+1)
						}
					}
				}
			}
		}
	}
	if n == 0 {
		out[""] = true
	}
}
