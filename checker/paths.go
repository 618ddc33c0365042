package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ev is one observed step of a path: an operation on a store, a call of a watched function or of a function value.
type Ev struct {
	Kind  string // Set, Get, Delete, Iterator, Has, call, dyn
	Store string
	Fn    *ssa.Function
	Recv  *V // the store (Set, Get, Delete...), the callee value (dyn)
	Args  []*V
	At    ssa.Instruction
	Name  string // of the function called
}

// Path is one explored path of an entry point with what it did, in order.
type Path struct {
	O  Outcome
	X  *Exec
	Ok bool // may return success
	Ev []Ev
}

func (p *Path) facts() map[*V]bool { return p.O.st.facts }

// known: what the path knows about an atom.
func (p *Path) known(atom *V) (bool, bool) { return p.X.eval(p.O.st, atom) }

type pathOpts struct {
	announced bool // record what is announced
	inline   func(f *ssa.Function) bool // which repository functions are looked into (nil: same package and util)
	watch    map[*ssa.Function]bool     // recorded and not looked into
	observe  map[*ssa.Function]bool     // recorded and looked into
	watchI   func(ci *CallInfo) bool    // recorded, opaque: calls selected otherwise
	hyp      func(x *Exec, a *V, st *State) (bool, bool)
	onCall   func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome)
	reads    bool // record Get/Has/Iterator
	unroll   int
	fails    bool // watched functions returning an error may fail (two outcomes)
	st       *State
	limit    int
	noCut    bool
	iterOne  bool // loops over collections run at least once
	maxSteps int
	free     []*V // what a closure has captured
	outLimit int // partitions kept per call of a function (the limit)
}

func samePkg(root *ssa.Function) func(f *ssa.Function) bool {
	pk := fnPkgPath(root)
	mod := moduleOf(pk)
	return func(f *ssa.Function) bool {
		p := fnPkgPath(f)
		return moduleOf(p) == mod || p == modPath+"/util"
	}
}

// moduleOf maps a package path to its module directory (x/bank/internal/keeper -> x/bank).
func moduleOf(p string) string {
	p = strings.TrimPrefix(p, modPath+"/")
	s := strings.Split(p, "/")
	if len(s) >= 2 && s[0] == "x" {
		return "x/" + s[1]
	}
	return p
}

// paths explores f and returns the paths with their events.
func (c *Check) paths(f *ssa.Function, args []*V, o pathOpts) []*Path {
	var evs []Ev // index -> event; a state refers to its events by a linked list of indices
	add := func(st *State, e Ev) {
		evs = append(evs, e)
		prev := st.ev["trace"]
		if prev == nil {
			prev = vNil
		}
		st.ev["trace"] = rawApp("ev", evTerm(e), prev)
		traceOf[st.ev["trace"]] = e
	}
	if o.inline == nil {
		o.inline = samePkg(f)
	}
	if o.unroll == 0 {
		o.unroll = 2
	}
	if o.limit == 0 {
		o.limit = 400
	}
	if o.outLimit == 0 {
		o.outLimit = o.limit
	}
	cl := &Client{Name: "paths", Unroll: o.unroll, Cut: !o.noCut, Limit: o.limit, OutLimit: o.outLimit,
		Inline: o.inline,
		Hyp:    o.hyp,
		OnCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if o.announced {
				if as := announcedBy(ci); as != nil {
					for _, a := range as {
						addTrace(st, announcement(x, st, a, ci))
					}
					return true, []Outcome{x.Opaque(ci, st)}
				}
			}
			if o.onCall != nil {
				if ok, r := o.onCall(x, ci, st); ok {
					return ok, r
				}
			}
			if op, key, val, ok := c.P.kvCall(x, ci, st); ok {
				switch op {
				case "Set", "Delete":
				case "Write": // a cached store is written back
					add(st, Ev{Kind: op, Store: c.P.storeOf(x.snap(st, ci.Args[0])), Recv: x.snap(st, ci.Args[0]), At: ci.Instr})
					return false, nil
				case "Get", "Has", "Iterator", "ReverseIterator":
					if !o.reads {
						return false, nil
					}
				default:
					return false, nil
				}
				e := Ev{Kind: op, Store: c.P.storeOf(x.snap(st, ci.Args[0])), Recv: x.snap(st, ci.Args[0]), Args: []*V{orNil(key)}, At: ci.Instr}
				if val != nil {
					e.Args = append(e.Args, val)
				}
				add(st, e)
				return false, nil
			}
			if m := ci.Name[strings.LastIndexByte(ci.Name, '.')+1:]; (m == "SetParamSet" || m == "Set" || m == "Update") && strings.Contains(strings.ToLower(ci.Name), "subspace") {
				v := snapAll(x, st, ci.Args[len(ci.Args)-1:])
				st0 := ""
				if a := stripIface(ci.Args[len(ci.Args)-1]); a.k == KAddr {
					v = []*V{x.snap(st, x.load(st, a))}
				}
				if m != "SetParamSet" {
					v = append([]*V{x.snap(st, ci.Args[len(ci.Args)-2])}, v...)
				} else if len(v) > 0 {
					st0 = paramsOf(v[0])
				}
				add(st, Ev{Kind: "Params", Store: st0, Args: v, At: ci.Instr})
				return false, nil
			}
			if n := ci.Name; (n == "sort.Slice" || n == "sort.SliceStable") && len(ci.Args) == 2 {
				// the order: what the comparison of the elements i and j gives
				e := Ev{Kind: "sort", Args: []*V{x.snap(st, ci.Args[0]), vNil}, At: ci.Instr}
				if fv := stripIface(ci.Args[1]); fv.k == KFunc && fv.fn.Blocks != nil {
					if outs := x.exec(fv.fn, []*V{Sym("i"), Sym("j")}, fv.args, st.clone(), ci.Site, ci.Ctx); len(outs) == 1 && len(outs[0].vals) == 1 {
						e.Args[1] = x.snap(outs[0].st, outs[0].vals[0])
					}
				}
				add(st, e)
				return false, nil
			}
			if ci.Fn == nil && ci.Iface == nil && strings.HasPrefix(ci.Name, "dynamic:") {
				add(st, Ev{Kind: "dyn", Args: snapAll(x, st, ci.Args), At: ci.Instr})
				return false, nil
			}
			w := ci.Fn != nil && (o.watch[ci.Fn] || o.observe[ci.Fn]) || o.watchI != nil && o.watchI(ci)
			if !w {
				return false, nil
			}
			e := Ev{Kind: "call", Fn: ci.Fn, Args: snapAll(x, st, ci.Args), At: ci.Instr, Name: ci.Name}
			if ci.Fn != nil && o.observe[ci.Fn] {
				add(st, e)
				return false, nil
			}
			s2 := st
			var failed []Outcome
			if o.fails {
				rs := ci.Sig.Results()
				if n := rs.Len(); n > 0 && isErrorType(rs.At(n-1).Type()) {
					s2 = st.clone()
					oc := x.Opaque(ci, st)
					oc.vals[n-1] = rawApp("err:failed", ci.Site)
					st.ev["failed"] = rawApp("call:"+ci.Name, ci.Site)
					failed = append(failed, oc)
				}
			}
			add(s2, e)
			oc := x.Opaque(ci, s2)
			if failed != nil {
				oc.vals[len(oc.vals)-1] = vNil
			}
			return true, append([]Outcome{oc}, failed...)
		}}
	if o.iterOne {
		h := cl.Hyp
		cl.Hyp = func(x *Exec, a *V, st *State) (bool, bool) {
			if h != nil {
				if v, ok := h(x, a, st); ok {
					return v, ok
				}
			}
			return atLeastOne(x, a, st)
		}
	}
	x := newExec(c.P, cl)
	x.free = o.free
	if o.maxSteps > 0 {
		x.maxStep = o.maxSteps
	}
	res := []*Path{}
	for _, oc := range c.exploreX(x, f, args, o.st) {
		if contradictory(oc.st.facts) {
			continue
		}
		p := &Path{O: oc, X: x, Ok: succeeded(x, f, oc)}
		for t := oc.st.ev["trace"]; t != nil && t.is("ev"); t = t.args[1] {
			p.Ev = append([]Ev{traceOf[t]}, p.Ev...)
		}
		res = append(res, p)
	}
	return res
}

// contradictory: the equalities known cannot hold together.
func contradictory(facts map[*V]bool) bool {
	up := map[*V]*V{}
	var find func(v *V) *V
	find = func(v *V) *V {
		if up[v] == nil || up[v] == v {
			return v
		}
		r := find(up[v])
		up[v] = r
		return r
	}
	any := false
	for f, b := range facts {
		if b && f.is("eq") {
			any = true
			x, y := find(f.args[0]), find(f.args[1])
			if x == y {
				continue
			}
			if x.k == KConst && y.k == KConst {
				return true
			}
			if x.k == KConst {
				x, y = y, x
			}
			up[x] = y
		}
	}
	if !any {
		return false
	}
	for f, b := range facts {
		if !b && f.is("eq") && find(f.args[0]) == find(f.args[1]) {
			return true
		}
	}
	return false
}

// atLeastOne: collections and iterators have a first element.
func atLeastOne(x *Exec, a *V, st *State) (bool, bool) {
	if a.is("lt") && a.args[1].is("len") {
		if n, ok := intOf(a.args[0]); ok && n == 0 {
			return true, true
		}
	}
	if a.is("eq") {
		for i := 0; i < 2; i++ {
			if n, ok := intOf(a.args[i]); ok && n == 0 && a.args[1-i].is("len") {
				return false, true
			}
		}
	}
	if strings.HasPrefix(a.op, "call:invoke:") && strings.HasSuffix(a.op, "Iterator.Valid") {
		k := "valid:" + itoa(stripIface(a.args[0]).id)
		if st.ev[k] == nil {
			st.ev[k] = a
			return true, true
		}
		if st.ev[k] == a {
			return true, true
		}
	}
	return false, false
}

var traceOf = map[*V]Ev{}

func evTerm(e Ev) *V {
	n := e.Kind + ":" + e.Store
	if e.Fn != nil {
		n += canonName(e.Fn)
	} else {
		n += e.Name
	}
	if e.Recv != nil {
		return rawApp("step:"+n, append([]*V{e.Recv}, e.Args...)...)
	}
	return rawApp("step:"+n, e.Args...)
}

func snapAll(x *Exec, st *State, a []*V) []*V {
	r := []*V{}
	for _, v := range a {
		r = append(r, x.snap(st, v))
	}
	return r
}

func set(fs ...*ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range fs {
		if f != nil {
			m[f] = true
		}
	}
	return m
}

func (p *Path) first(pred func(Ev) bool) int {
	for i, e := range p.Ev {
		if pred(e) {
			return i
		}
	}
	return -1
}

func (p *Path) has(pred func(Ev) bool) bool { return p.first(pred) >= 0 }

func (p *Path) exit(c *Check) string { return "exit " + c.P.pos(p.O.pos) }

func calls(f *ssa.Function) func(Ev) bool {
	return func(e Ev) bool { return e.Kind == "call" && e.Fn == f }
}

func writes(store string) func(Ev) bool {
	return func(e Ev) bool {
		return (e.Kind == "Set" || e.Kind == "Delete") && (store == "" || e.Store == store)
	}
}

// fieldVal is the value of a named field in a struct value.
func fieldVal(v *V, t types.Type, name string) *V {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return project(v, FieldSel(t, i))
		}
	}
	return nil
}

// mention: v contains w.
func mention(v, w *V) bool { return v.mentions(func(y *V) bool { return y == w }) }

// fullKey is the key of a store event relative to the module's root store: nested prefixes and concatenations are
// flattened.
func fullKey(e Ev) string {
	parts := []string{}
	var pre func(v *V)
	var flat func(v *V)
	flat = func(v *V) {
		v = stripIface(v)
		if v.is("append") || v.is("concat") {
			for _, a := range v.args {
				flat(a)
			}
			return
		}
		if v.is("bytesof") && len(v.args) == 1 {
			flat(v.args[0])
			return
		}
		if v.k == KNil || v.k == KList && len(v.args) == 0 {
			return
		}
		if v.is("spread") {
			flat(v.args[0])
			return
		}
		parts = append(parts, itoa(v.id))
	}
	pre = func(v *V) {
		v = stripIface(v)
		if v.hasOp("call:") && strings.HasSuffix(v.op, "store/prefix.NewStore") {
			pre(v.args[0])
			flat(v.args[1])
		} else if v.hasOp("call:") && strings.HasSuffix(v.op, "cachekv.NewStore") {
			pre(v.args[0])
		}
	}
	if e.Recv != nil {
		pre(e.Recv)
	}
	if len(e.Args) > 0 {
		flat(e.Args[0])
	}
	return e.Store + ":" + strings.Join(parts, ".")
}

// getterKey: the key (flattened) a getter reads first.
func (c *Check) getterKey(rel, typ, name string, extra ...*V) string {
	f := c.method(rel, typ, name)
	if f == nil {
		return "?"
	}
	args := append([]*V{Sym("keeper"), Sym("ctx")}, extra...)
	for _, p := range c.paths(f, args, pathOpts{reads: true}) {
		for _, e := range p.Ev {
			if e.Kind == "Get" || e.Kind == "Has" {
				return fullKey(e)
			}
		}
	}
	c.oblige(false, "anchor", shortFn(f), "reads nothing")
	return "?"
}

// onKey: an event on the key given.
func onKey(k string, kinds ...string) func(Ev) bool {
	return func(e Ev) bool {
		if e.Store == "" || fullKey(e) != k {
			return false
		}
		for _, x := range kinds {
			if e.Kind == x {
				return true
			}
		}
		return len(kinds) == 0
	}
}

// refused: whenever the hypothesis holds, the operation does not succeed and does nothing.
func (c *Check) refused(rule string, f *ssa.Function, args []*V, o pathOpts, hyp func(a *V) (bool, bool)) {
	hit := false
	inner := o.hyp
	o.hyp = func(x *Exec, a *V, st *State) (bool, bool) {
		v, ok := hyp(a)
		if ok {
			hit = true
			return v, ok
		}
		if inner != nil {
			return inner(x, a, st)
		}
		return false, false
	}
	bad := ""
	for _, p := range c.paths(f, args, o) {
		if p.O.panic {
			continue
		}
		if p.Ok {
			bad = "succeeds; " + p.exit(c)
			break
		}
		for _, e := range p.Ev {
			if e.Kind == "Set" || e.Kind == "Delete" {
				bad = "writes " + e.Store + " before it fails; " + p.exit(c)
			}
			if e.Kind == "call" && !(e.Fn != nil && c.P.readOnly(e.Fn)) {
				bad = "calls " + shortFn(e.Fn) + " before it fails; " + p.exit(c)
			}
		}
	}
	c.oblige(hit, rule, shortFn(f), "never looks at the condition")
	c.oblige(bad == "", rule, shortFn(f), bad)
}

// allowed: under the hypothesis, the operation succeeds on some path.
func (c *Check) allowed(rule string, f *ssa.Function, args []*V, o pathOpts, hyp func(a *V) (bool, bool)) {
	inner := o.hyp
	o.hyp = func(x *Exec, a *V, st *State) (bool, bool) {
		if v, ok := hyp(a); ok {
			return v, ok
		}
		if inner != nil {
			return inner(x, a, st)
		}
		return false, false
	}
	for _, p := range c.paths(f, args, o) {
		if p.Ok && !p.O.panic {
			c.oblige(true, rule, shortFn(f), "")
			return
		}
	}
	c.oblige(false, rule, shortFn(f), "always refused")
}

// readOf: the value is read from the store under the key.
func readOf(v *V, key string) bool {
	return v.mentions(func(y *V) bool {
		if !isGetCall(y) && !(y.hasOp("call:") && strings.HasSuffix(y.op, "KVStore.Has")) && !(y.hasOp("call:") && strings.HasSuffix(y.op, "Store).Has")) || len(y.args) < 2 {
			return false
		}
		e := Ev{Recv: y.args[0], Args: y.args[1:2], Store: key[:strings.IndexByte(key, ':')]}
		return fullKey(e) == key
	})
}

// paramsOf: the parameter set type a value was derived from.
func paramsOf(v *V) string {
	r := ""
	v.mentions(func(y *V) bool {
		if y.hasOp("params:") {
			r = strings.TrimPrefix(y.op, "params:")
			return true
		}
		return false
	})
	return r
}

// factStr lists the known facts that contain a word.
func (p *Path) factStr(word string) string {
	s := []string{}
	for a, v := range p.facts() {
		if t := a.str(12); strings.Contains(t, word) {
			if !v {
				t = "not " + t
			}
			s = append(s, t)
		}
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}

// readOnly: no write to a store is reachable from the function.
func (P *Program) readOnly(f *ssa.Function) bool {
	if P.writers == nil {
		t := map[*ssa.Function]bool{}
		for _, op := range P.storeOps() {
			if op.Op == "Set" || op.Op == "Delete" {
				t[op.Fn] = true
			}
		}
		P.writers = P.reaching(t)
	}
	return !P.writers[f]
}
