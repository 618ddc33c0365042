package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// G02: nothing of a genesis is left out, neither when the state is exported nor when it is imported.

func init() { register("G02", ruleGenesis) }

// genesisPath: the place in the genesis that a term is, for instance "Accounts[].Requests[].Time".
func genesisPath(v, data *V) (string, bool) {
	v = stripIface(v)
	switch {
	case v == data:
		return "", true
	case v.hasOp("field:") && len(v.args) == 1:
		b, ok := genesisPath(v.args[0], data)
		return b + v.op[strings.LastIndexByte(v.op, '.'):], ok
	case v.is("index") && len(v.args) == 2:
		b, ok := genesisPath(v.args[0], data)
		return b + "[]", ok
	case v.is("deref") && len(v.args) == 1:
		return genesisPath(v.args[0], data)
	}
	return "", false
}

// leavesOf lists the fields of the messages in a genesis, down to those which are no messages of the module.
func leavesOf(t types.Type, pkg, path string, depth int) []string {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return leavesOf(u.Elem(), pkg, path, depth)
	case *types.Slice:
		return leavesOf(u.Elem(), pkg, path+"[]", depth)
	case *types.Named:
		st, ok := u.Underlying().(*types.Struct)
		if ok && u.Obj().Pkg() != nil && u.Obj().Pkg().Path() == pkg && depth > 0 && u.Obj().Name() != "Params" {
			var r []string
			for i := 0; i < st.NumFields(); i++ {
				r = append(r, leavesOf(st.Field(i).Type(), pkg, path+"."+st.Field(i).Name(), depth-1)...)
			}
			return r
		}
		if s, ok := u.Underlying().(*types.Slice); ok && depth > 0 {
			return leavesOf(s.Elem(), pkg, path+"[]", depth)
		}
	}
	return []string{path}
}

// ofGenesis: a genesis state or a list of messages of the module.
func ofGenesis(t types.Type, pkg string) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	} else if !strings.HasSuffix(typeName(t), "types.GenesisState") {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkg {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

// anew: what is not exported since it is always the same there or made anew on import.
var anew = map[string]bool{
	"noding.Active[].SwitchedOn":            true, // only of those in jail, which are not active
	"profile.Profiles[].Profile.CardNumber": true, // made of the number of the account
}

// globalsIn: the variables of the package (names of keys) in a term.
func globalsIn(v *V) map[string]bool {
	r := map[string]bool{}
	v.mentions(func(y *V) bool {
		if y.hasOp("global:") {
			r[y.op] = true
		}
		return false
	})
	return r
}

func ruleGenesis(c *Check) {
	deep := map[string]bool{"earning": true, "delegating": true, "schedule": true, "voting": true, "bank": true}
	const (
		kIn  = "every field of the genesis is imported"
		kOut = "every field of the genesis is exported"
	)
	n := 0
	for _, m := range []string{"earning", "delegating", "schedule", "voting", "noding", "profile", "bank", "referral"} {
		k, ctx := Sym("k"), Sym("ctx")
		args := []*V{ctx, k}
		var ex, in *ssa.Function
		if m == "bank" {
			ex, in = c.method("x/bank/internal/keeper", "BaseKeeper", "ExportGenesis"), c.method("x/bank/internal/keeper", "BaseKeeper", "InitGenesis")
			args = []*V{k, ctx}
		} else {
			ex, in = c.fn("x/"+m, "ExportGenesis"), c.fn("x/"+m, "InitGenesis")
		}
		gt := c.P.typ("x/"+m+"/types", "GenesisState")
		if !c.oblige(ex != nil && in != nil && gt != nil, "anchor", "x/"+m+" genesis") {
			continue
		}
		n++
		leaves := leavesOf(gt, modPath+"/x/"+m+"/types", "", 4)
		inl := func(f *ssa.Function) bool {
			p := fnPkgPath(f)
			if moduleOf(p) != "x/"+m || f.Name() == "Logger" || f.Name() == "GetParams" || f.Name() == "GetSupply" {
				return false
			}
			if deep[m] || p == modPath+"/x/"+m || strings.HasSuffix(p, "/types") || f.Parent() != nil {
				return true
			}
			rs := f.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				t := rs.At(i).Type()
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					t = pt.Elem()
				}
				if ofGenesis(t, p[:strings.LastIndexByte(p, '/')]+"/types") {
					return true
				}
			}
			for _, q := range f.Params {
				if ofGenesis(q.Type(), p[:strings.LastIndexByte(p, '/')]+"/types") {
					return true
				}
			}
			return false
		}
		present := func(x *Exec, a *V, st *State) (bool, bool) {
			if v, ok := wellCoded(x, a, st); ok || m != "referral" {
				return v, ok
			}
			// three generations of accounts with everything there is to record
			kids := func(v *V) int {
				n := 0
				v.mentions(func(y *V) bool {
					if strings.HasSuffix(y.op, ".GetChildren#0") {
						n++
					}
					return false
				})
				return n
			}
			if v, ok := sized(a, func(t *V) (int64, bool) {
				if !t.is("len") {
					return 0, false
				}
				switch kids(t.args[0]) {
				case 1, 2:
					return 1, true
				case 3:
					return 0, true
				}
				return 0, false
			}); ok {
				return v, ok
			}
			b, neg := a, false
			for b.is("not") {
				b, neg = b.args[0], !neg
			}
			switch {
			case b.is("isnil") && b.args[0].hasOp("call:") && isErrorType(b.args[0].t):
				return !neg, true
			case b.is("isnil") && b.args[0].hasOp("field:"):
				return neg, true
			case b.is("eq") && (b.args[0] == Str("") && strings.HasSuffix(b.args[1].op, ".Transition") || b.args[1] == Str("") && strings.HasSuffix(b.args[0].op, ".Transition")):
				return neg, true
			}
			return false, false
		}
		unroll := 1
		if m == "referral" {
			unroll = 3 // there are accounts on the second level
		}
		o := pathOpts{inline: inl, iterOne: true, unroll: unroll, hyp: present, limit: 3000, outLimit: 3000,
			watchI: func(ci *CallInfo) bool {
				if ci.Fn != nil {
					return anyRepo(ci.Fn) && !inl(ci.Fn) && ci.Fn.Name() != "Logger"
				}
				return ci.Iface != nil && strings.HasPrefix(ci.Iface.Pkg().Path(), modPath)
			}}
		data := Sym("data")
		used := map[string]bool{}
		to, from := map[string]map[string]bool{}, map[string]map[string]bool{}
		note := func(m map[string]map[string]bool, leaf, what string) {
			if m[leaf] == nil {
				m[leaf] = map[string]bool{}
			}
			m[leaf][what] = true
		}
		var walk func(v *V, seen map[*V]bool)
		walk = func(v *V, seen map[*V]bool) {
			if v == nil || seen[v] {
				return
			}
			seen[v] = true
			if s, ok := genesisPath(v, data); ok {
				used[s] = true
				return
			}
			for i := 1; v.k == KStruct && i+1 < len(v.args); i += 2 {
				v.args[i+1].mentions(func(y *V) bool {
					if s, ok := genesisPath(y, data); ok && s != "" {
						note(to, s, strings.TrimPrefix(v.args[i].op, "sel:"))
						return true
					}
					return false
				})
			}
			for _, a := range v.args {
				walk(a, seen)
			}
		}
		o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if strings.HasSuffix(ci.Name, ".WithBlockHeight") {
				walk(ci.Args[1], map[*V]bool{})
			}
			if ci.Fn == nil || inl(ci.Fn) || moduleOf(fnPkgPath(ci.Fn)) != "x/"+m || deep[m] {
				return false, nil
			}
			for _, a := range ci.Args {
				fv := stripIface(a)
				if fv.k != KFunc || fv.fn.Blocks == nil {
					continue
				}
				// what is done to which record
				for _, b := range ci.Args {
					if b != a {
						walk(x.snap(st, b), map[*V]bool{})
					}
				}
				var outs []Outcome
				ps := x.params(fv.fn)
				for _, out := range x.exec(fv.fn, ps, fv.args, st.clone(), ci.Site, ci.Ctx) {
					if out.panic {
						continue
					}
					for _, q := range ps {
						walk(x.snap(out.st, x.load(out.st, q)), map[*V]bool{})
					}
					outs = append(outs, x.Opaque(ci, out.st))
				}
				return true, outs
			}
			return false, nil
		}
		np := 0
		for _, p := range c.paths(in, append(append([]*V{}, args...), data), o) {
			if p.O.panic {
				continue
			}
			np++
			for a := range p.facts() {
				if sv, ok := genesisPath(a, data); ok {
					used[sv] = true // a flag that is told from
				}
			}
			for _, e := range p.Ev {
				if e.Kind == "Get" || e.Kind == "Has" || e.Kind == "Iterator" {
					continue
				}
				if e.Kind == "Set" {
					for g := range globalsIn(e.Args[0]) {
						e.Args[1].mentions(func(y *V) bool {
							if s, ok := genesisPath(y, data); ok && s != "" {
								note(to, s, g)
								return true
							}
							return false
						})
					}
				}
				for _, a := range e.Args {
					walk(p.X.snap(p.O.st, a), map[*V]bool{})
				}
			}
		}
		for _, l := range leaves {
			ok := false
			for q := l; ; {
				if used[q] {
					ok = true
				}
				i := strings.LastIndexAny(q, ".[")
				if i < 0 || q == "" {
					break
				}
				q = q[:i]
			}
			c.oblige(ok, kIn, m+l)
		}
		c.oblige(np > 0, "reachable import", m, np)
		c.exported(m, ex, args, gt, o, kOut, from)
		for l, ws := range to {
			// (what is only part of keys is an account)
			for _, where := range []string{"global:", "x/"} {
				known, same, both := false, false, false
				for w := range ws {
					both = both || strings.HasPrefix(w, where)
				}
				for w := range from[l] {
					if strings.HasPrefix(w, where) && !strings.Contains(w, "eeper.") {
						known = true
						same = same || ws[w]
					}
				}
				if !known || !both {
					continue
				}
				c.oblige(same, "what is exported comes back to where it was", m+l, fmt.Sprint(ws), fmt.Sprint(from[l]))
			}
		}
	}
	c.oblige(n == 8, "anchor", "modules with a genesis", n)
}

// exported: every field of what is exported is of the state.
func (c *Check) exported(m string, ex *ssa.Function, args []*V, gt types.Type, o pathOpts, kOut string, from map[string]map[string]bool) {
	pkg := modPath + "/x/" + m + "/types"
	o.onCall = nil
	given := map[string]bool{} // comes from the state
	np := 0
	for _, p := range c.paths(ex, args, o) {
		if p.O.panic || len(p.O.vals) == 0 {
			continue
		}
		np++
		for k, a := range p.O.st.ev {
			if strings.HasPrefix(k, "valid:") && a != nil {
				c.oblige(p.exhausted(a.args[0]), "an export goes through the state to its end", m+": "+p.iterated(a.args[0]))
			}
		}
		g := stripIface(p.O.vals[0])
		if g.k != KStruct {
			g = p.X.load(p.O.st, g)
		}
		g = p.X.snap(p.O.st, g)
		var rec func(v *V, t types.Type, path string, depth int)
		rec = func(v *V, t types.Type, path string, depth int) {
			v = stripIface(v)
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
				if v.k == KAddr || v.is("alloc") {
					v = p.X.snap(p.O.st, p.X.load(p.O.st, v))
				}
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && depth > 0 {
				if st, ok := n.Underlying().(*types.Struct); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() != "Params" && v.k == KStruct {
					for i := 0; i < st.NumFields(); i++ {
						rec(project(v, FieldSel(t, i)), st.Field(i).Type(), path+"."+st.Field(i).Name(), depth-1)
					}
					return
				}
			}
			if st, ok := t.Underlying().(*types.Slice); ok && depth > 0 {
				switch {
				case v.k == KList:
					for _, a := range v.args {
						rec(a, st.Elem(), path+"[]", depth)
					}
					return
				case v.is("append"):
					for _, a := range v.args {
						rec(a, t, path, depth)
					}
					return
				}
			}
			if v.mentions(func(y *V) bool { return y.k == KApp || y.k == KSym && !strings.HasPrefix(y.op, "sel:") }) {
				given[path] = true
				if from[path] == nil {
					from[path] = map[string]bool{}
				}
				for g := range globalsIn(v) {
					from[path][g] = true
				}
				v.mentions(func(y *V) bool {
					if y.hasOp("field:") {
						from[path][strings.TrimPrefix(y.op, "field:")] = true
					}
					return false
				})
				if v.mentions(func(y *V) bool { return strings.HasSuffix(y.op, ".GetChildren#0") }) {
					given[path+" of others"] = true
				} else {
					given[path+" of the first"] = true
				}
			}
		}
		rec(g, gt, "", 5)
	}
	c.oblige(np > 0, "reachable export", m, np)
	for _, l := range leavesOf(gt, pkg, "", 4) {
		ok := anew[m+l]
		for q := l; ; {
			ok = ok || given[q]
			i := strings.LastIndexAny(q, ".[")
			if i < 0 || q == "" {
				break
			}
			q = q[:i]
		}
		c.oblige(ok, kOut, m+l)
	}
	if m == "referral" {
		for _, l := range []string{".Compressions[].Account", ".Banishment[].Account", ".Downgrades[].Account", ".Transitions[].Subject", ".OtherAccounts[].Referrer"} {
			c.oblige(given[l+" of the first"] && given[l+" of others"], kOut+" for accounts of all levels", m+l)
		}
	}
}

// exhausted: the iterator was advanced until nothing was left.
func (p *Path) exhausted(it *V) bool {
	for f, b := range p.facts() {
		if !b && strings.HasSuffix(f.op, "Iterator.Valid") && len(f.args) > 0 && stripIface(f.args[0]) == stripIface(it) {
			return true
		}
	}
	return false
}

func (p *Path) iterated(it *V) string {
	gs := []string{}
	for g := range globalsIn(it) {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	return strings.Join(gs, " ")
}
