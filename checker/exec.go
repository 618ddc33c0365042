package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine: a path-sensitive, interprocedural dataflow analysis in the style of property simulation (ESP). The state at
// a program point is a set of partitions, each holding an abstract memory, the branch facts established so far and the
// state of the client's property automaton ("events"). Calls into the repository are analysed in the context of the
// call; everything else is opaque. Loops whose bound is a constant are unrolled; other loops are unrolled Unroll times
// and then widened (every value that changes in the loop is forgotten) until the automaton state is stable. Partitions
// meeting in a block are joined once there are too many of them, those with equal automaton state together.

type State struct {
	mem    map[*V]*V
	facts  map[*V]bool
	ev     map[string]*V // client automaton
	rec    bool          // a panic is being recovered from
	behind map[*V][]*V   // while taking a snapshot: pointers held by values that were stored through
	trail  []string      // diagnostics: branch decisions (positions)
}

func newState() *State {
	return &State{mem: map[*V]*V{}, facts: map[*V]bool{}, ev: map[string]*V{}}
}

func (s *State) clone() *State {
	n := &State{mem: make(map[*V]*V, len(s.mem)+4), facts: make(map[*V]bool, len(s.facts)+4), ev: make(map[string]*V, len(s.ev)+2), rec: s.rec, trail: s.trail}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.ev {
		n.ev[k] = v
	}
	return n
}

func (s *State) evKey() string {
	ks := make([]string, 0, len(s.ev))
	for k, v := range s.ev {
		ks = append(ks, k+"="+strconv.Itoa(v.id))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (s *State) key() string {
	ks := make([]string, 0, len(s.mem)+len(s.facts))
	for k, v := range s.mem {
		ks = append(ks, "m"+strconv.Itoa(k.id)+"="+strconv.Itoa(v.id))
	}
	for k, v := range s.facts {
		ks = append(ks, "f"+strconv.Itoa(k.id)+strconv.FormatBool(v))
	}
	sort.Strings(ks)
	return s.evKey() + "/" + strings.Join(ks, ";") + strconv.FormatBool(s.rec)
}

type Outcome struct {
	panic bool
	vals  []*V
	st    *State
	pos   token.Pos
}

type CallInfo struct {
	Fn    *ssa.Function // resolved callee (repository or external), nil for unresolved interface methods and values
	Iface *types.Func   // the interface method, if called through one
	Name  string        // printable, type-resolved name
	Args  []*V          // receiver first
	Site  *V
	Instr ssa.CallInstruction
	Sig   *types.Signature
	Ctx   *frame
}

type Client struct {
	Name     string
	Unroll   int
	Cut      bool // after Unroll iterations drop the path instead of widening (bounded)
	Limit    int  // partitions per block
	OutLimit int  // partitions per function exit
	Depth    int

	Inline  func(f *ssa.Function) bool
	Hyp     func(x *Exec, atom *V, st *State) (val, ok bool)
	OnCall  func(x *Exec, c *CallInfo, st *State) (bool, []Outcome)
	OnStore func(x *Exec, addr, val *V, st *State, in ssa.Instruction, fr *frame)
	OnIf    func(x *Exec, cond *V, st *State)
	OnRet   func(x *Exec, fr *frame, vals []*V, st *State, pos token.Pos)
	OnPath  func(st *State) bool // false: the path is not of interest
}

type Exec struct {
	free    []*V // what the root has captured
	P       *Program
	C       *Client
	stack   []*ssa.Function
	steps   int
	maxStep int
	calls   int
	fnSeen  map[*ssa.Function]bool
	ifs     int
	opaque  map[string]int
	giveUp  string
}

func newExec(P *Program, c *Client) *Exec {
	if c.Unroll == 0 {
		c.Unroll = 1
	}
	if c.Limit == 0 {
		c.Limit = 12
	}
	if c.OutLimit == 0 {
		c.OutLimit = 6
	}
	if c.Depth == 0 {
		c.Depth = 40
	}
	return &Exec{P: P, C: c, maxStep: 6000000, fnSeen: map[*ssa.Function]bool{}, opaque: map[string]int{}}
}

type frame struct {
	fn     *ssa.Function
	site   *V // call context
	parent *frame
	info   *fnInfo
	bind   []*V
}

type deferRec struct {
	call *ssa.Defer
	fn   *V
	args []*V
	invk *V
}

type item struct {
	blk   *ssa.BasicBlock
	env   map[ssa.Value]*V
	st    *State
	loops map[*ssa.BasicBlock]loopSt
	defs  []deferRec
}

type loopSt struct {
	n       int
	constB  bool
	widened bool
	entry   *State
	entryE  map[ssa.Value]*V
}

// per-function static info ------------------------------------------------------------------------------------------

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	header map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // loop header -> body
	livein map[*ssa.BasicBlock]map[ssa.Value]bool
	instr  map[ssa.Instruction]int
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(f *ssa.Function) *fnInfo {
	if i, ok := fnInfos[f]; ok {
		return i
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, header: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, livein: map[*ssa.BasicBlock]map[ssa.Value]bool{}, instr: map[ssa.Instruction]int{}}
	// natural loops
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := fi.header[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fi.header[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	// post-order visiting loop exits first, so that loop bodies come before what follows the loop in reverse order
	seen := map[*ssa.BasicBlock]bool{}
	post := []*ssa.BasicBlock{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		succs := append([]*ssa.BasicBlock{}, b.Succs...)
		depth := func(x *ssa.BasicBlock) int {
			n := 0
			for _, body := range fi.header {
				if body[x] {
					n++
				}
			}
			return n
		}
		sort.SliceStable(succs, func(i, j int) bool { return depth(succs[i]) < depth(succs[j]) })
		for _, s := range succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	if f.Recover != nil && !seen[f.Recover] {
		dfs(f.Recover)
	}
	for i, b := range post {
		fi.rpo[b] = len(post) - i
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	n := 0
	for _, b := range f.Blocks {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			fi.instr[in] = n
			n++
			if _, ok := in.(*ssa.Phi); !ok {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if *o != nil && !d[*o] {
						u[*o] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		fi.livein[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			li := fi.livein[b]
			add := func(v ssa.Value) {
				if !li[v] {
					li[v] = true
					ch = true
				}
			}
			for v := range use[b] {
				add(v)
			}
			for _, s := range b.Succs {
				for v := range fi.livein[s] {
					if !def[b][v] {
						add(v)
					}
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if pi >= 0 && !def[b][ph.Edges[pi]] {
						add(ph.Edges[pi])
					}
				}
			}
		}
	}
	fnInfos[f] = fi
	return fi
}

// memory --------------------------------------------------------------------------------------------------------------

func (x *Exec) load(st *State, a *V) *V {
	a = stripIface(a)
	obj, path := a, []*V(nil)
	if a.k == KAddr {
		obj, path = a.args[0], a.args[1:]
	}
	v, ok := st.mem[obj]
	if !ok {
		v = obj
	}
	for _, s := range path {
		// a component that is itself a pointer/slice cell with memory of its own
		v = project(x.contents(st, v), s)
	}
	return v
}

// contents resolves a slice/array value living in memory to what it holds now.
func (x *Exec) contents(st *State, v *V) *V {
	v2 := stripIface(v)
	switch v2.k {
	case KAddr:
		return x.load(st, v2)
	case KApp, KSym, KList:
		if m, ok := st.mem[v2]; ok {
			return m
		}
	}
	return v
}

func (x *Exec) store(st *State, a, nv *V) {
	a = stripIface(a)
	obj, path := a, []*V(nil)
	if a.k == KAddr {
		obj, path = a.args[0], a.args[1:]
	}
	if len(path) == 0 {
		st.mem[obj] = nv
		return
	}
	cur, ok := st.mem[obj]
	if !ok {
		cur = obj
	}
	var rec func(v *V, p []*V) *V
	rec = func(v *V, p []*V) *V {
		if len(p) == 0 {
			return nv
		}
		// arrays/slices that are reached by value but live in memory
		return update(v, p[0], rec(project(v, p[0]), p[1:]))
	}
	st.mem[obj] = rec(cur, path)
}

// snap resolves what is reachable from v through memory (bounded), giving a self-contained term.
func (x *Exec) snap(st *State, v *V) *V {
	st.behind = nil
	for k, m := range st.mem {
		if m != k && k.k == KApp && len(k.args) == 1 && strings.HasPrefix(k.op, "field:") {
			if st.behind == nil {
				st.behind = map[*V][]*V{}
			}
			st.behind[k.args[0]] = append(st.behind[k.args[0]], k)
		}
	}
	for _, ks := range st.behind {
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	}
	r := x.snapd(st, v, 6)
	st.behind = nil
	return r
}

func (x *Exec) snapd(st *State, v *V, d int) *V {
	if d == 0 || v == nil {
		return v
	}
	switch v.k {
	case KAddr:
		c := x.load(st, v)
		if c == v {
			return v
		}
		return x.snapd(st, c, d-1)
	case KIface:
		return Iface(v.t, x.snapd(st, v.args[0], d))
	case KStruct, KList, KTuple:
		args := make([]*V, len(v.args))
		ch := false
		for i, a := range v.args {
			if v.k == KStruct && i > 0 && i%2 == 1 {
				args[i] = a
				continue
			}
			if i == 0 && v.k == KStruct && st.mem[a] == v {
				args[i] = a // what the base became
				continue
			}
			args[i] = x.snapd(st, a, d-1)
			if args[i] != a {
				ch = true
			}
		}
		if !ch {
			if m, ok := st.mem[v]; ok && m != v && v.k == KList {
				return x.snapd(st, m, d-1)
			}
			return v
		}
		return intern(v.k, v.op, args, v.c, v.t, v.fn, v.idx)
	case KApp, KSym:
		if m, ok := st.mem[v]; ok && m != v {
			if strings.HasPrefix(v.op, "global:") {
				return v
			}
			return x.snapd(st, m, d-1)
		}
		// what was stored through a pointer the value holds
		for _, k := range st.behind[v] {
			if sel := fieldSels["sel:"+k.op[len("field:"):]]; sel != nil {
				v = update(v, sel, x.snapd(st, st.mem[k], d-1))
			}
		}
	}
	return v
}

// facts ---------------------------------------------------------------------------------------------------------------

func (x *Exec) eval(st *State, c *V) (bool, bool) {
	if b, ok := boolOf(c); ok {
		return b, true
	}
	if c.is("not") {
		b, ok := x.eval(st, c.args[0])
		return !b, ok
	}
	if x.C.Hyp != nil {
		if v, ok := x.C.Hyp(x, c, st); ok {
			return v, true
		}
	}
	if b, ok := st.facts[c]; ok {
		return b, true
	}
	switch {
	case c.is("eq"):
		a, b := c.args[0], c.args[1]
		if isTruth(a) && isTruth(b) {
			if l, ok := x.eval(st, a); ok {
				if r, ok := x.eval(st, b); ok {
					return l == r, true
				}
			}
		}
		if v, ok := st.facts[rawApp("lt", a, b)]; ok && v {
			return false, true
		}
		if v, ok := st.facts[rawApp("lt", b, a)]; ok && v {
			return false, true
		}
		// a known to equal another constant
		for f, v := range st.facts {
			if v && f.is("eq") {
				for i := 0; i < 2; i++ {
					for j := 0; j < 2; j++ {
						if f.args[i] == c.args[j] && f.args[1-i].k == KConst && c.args[1-j].k == KConst && f.args[1-i] != c.args[1-j] {
							return false, true
						}
					}
				}
			}
		}
	case c.is("lt"):
		a, b := c.args[0], c.args[1]
		if v, ok := st.facts[rawApp("lt", b, a)]; ok && v {
			return false, true
		}
		if v, ok := st.facts[mkEq(a, b)]; ok && v {
			return false, true
		}
		// bounds against constants
		if n, ok := intOf(b); ok {
			for f, v := range st.facts {
				if f.is("lt") && f.args[0] == a {
					if m, ok := intOf(f.args[1]); ok {
						if v && m <= n {
							return true, true
						}
						if !v && m >= n {
							return false, true
						}
					}
				}
				if f.is("lt") && f.args[1] == a {
					if m, ok := intOf(f.args[0]); ok && v && m+1 >= n {
						return false, true
					}
				}
				if f.is("eq") && v {
					for i := 0; i < 2; i++ {
						if f.args[i] == a {
							if m, ok := intOf(f.args[1-i]); ok {
								return m < n, true
							}
						}
					}
				}
			}
		}
		if n, ok := intOf(a); ok {
			for f, v := range st.facts {
				if f.is("lt") && f.args[1] == b {
					if m, ok := intOf(f.args[0]); ok {
						if v && m >= n {
							return true, true
						}
						if !v && m <= n {
							return false, true
						}
					}
				}
				if f.is("lt") && f.args[0] == b {
					if m, ok := intOf(f.args[1]); ok && v && m <= n+1 {
						return false, true
					}
				}
				if f.is("eq") && v {
					for i := 0; i < 2; i++ {
						if f.args[i] == b {
							if m, ok := intOf(f.args[1-i]); ok {
								return n < m, true
							}
						}
					}
				}
			}
		}
	case c.is("isnil"):
		// a non-empty slice is not nil, a nil one is empty
	}
	return false, false
}

func (x *Exec) assume(st *State, c *V, b bool) {
	if c.is("not") {
		x.assume(st, c.args[0], !b)
		return
	}
	if c.k == KConst {
		return
	}
	st.facts[c] = b
}

func (x *Exec) isNil(st *State, v *V) (bool, bool) {
	return x.eval(st, mkIsNil(stripIfaceErr(v)))
}

// an interface holding a value is not nil itself
func stripIfaceErr(v *V) *V { return v }

// running --------------------------------------------------------------------------------------------------------------

// Run analyses fn from the given arguments (nil: opaque parameters) and state.
func (x *Exec) Run(fn *ssa.Function, args []*V, st *State) []Outcome {
	if args == nil {
		args = x.params(fn)
	}
	root := rawApp("site", Sym("root:"+shortFn(fn)))
	return x.exec(fn, args, x.free, st, root, nil)
}

func (x *Exec) params(fn *ssa.Function) []*V {
	args := []*V{}
	for i, p := range fn.Params {
		n := p.Name()
		if fn.Signature.Recv() != nil && i == 0 {
			n = "recv"
		}
		args = append(args, Sym("param:"+strconv.Itoa(i)+":"+n))
	}
	return args
}

func (x *Exec) exec(fn *ssa.Function, args []*V, bind []*V, st *State, site *V, parent *frame) []Outcome {
	if x.giveUp != "" {
		return nil
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	x.fnSeen[fn] = true
	fi := infoOf(fn)
	fr := &frame{fn: fn, site: site, parent: parent, info: fi, bind: bind}
	env := map[ssa.Value]*V{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			env[fv] = bind[i]
		} else {
			env[fv] = Sym("freevar:" + fv.Name())
		}
	}
	outs := []Outcome{}
	pend := map[*ssa.BasicBlock][]*item{}
	widenSeen := map[string]bool{}
	push := func(it *item) { pend[it.blk] = append(pend[it.blk], it) }
	push(&item{blk: fn.Blocks[0], env: env, st: st, loops: map[*ssa.BasicBlock]loopSt{}})
	for len(pend) > 0 && x.giveUp == "" {
		var best *ssa.BasicBlock
		for b := range pend {
			if best == nil || fi.rpo[b] < fi.rpo[best] {
				best = b
			}
		}
		its := x.merge(pend[best], fr, best)
		delete(pend, best)
		for _, it := range its {
			x.block(fr, it, 0, push, &outs, widenSeen)
		}
	}
	return x.mergeOutcomes(outs, fr)
}

func envKey(env map[ssa.Value]*V) string {
	ks := make([]string, 0, len(env))
	for k, v := range env {
		ks = append(ks, fmt.Sprintf("%p=%d", k, v.id))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func loopKey(l map[*ssa.BasicBlock]loopSt) string {
	ks := []string{}
	for b, s := range l {
		ks = append(ks, fmt.Sprintf("%d:%d%v%v", b.Index, s.n, s.constB, s.widened))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (x *Exec) merge(its []*item, fr *frame, b *ssa.BasicBlock) []*item {
	if len(its) == 1 {
		return its
	}
	live := fr.info.livein[b]
	seen := map[string]bool{}
	res := []*item{}
	for _, it := range its {
		ne := map[ssa.Value]*V{}
		for k, v := range it.env {
			if live[k] || isPhiOf(k, b) {
				ne[k] = v
			}
		}
		it.env = ne
		key := envKey(ne) + "#" + it.st.key() + "#" + loopKey(it.loops)
		if !seen[key] {
			seen[key] = true
			res = append(res, it)
		}
	}
	if len(res) <= x.C.Limit {
		return res
	}
	groups := map[string][]*item{}
	order := []string{}
	for _, it := range res {
		k := it.st.evKey() + "#" + loopKey(it.loops) + "#" + strconv.Itoa(len(it.defs)) + pinned(it.env)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], it)
	}
	out := []*item{}
	for _, k := range order {
		g := groups[k]
		j := g[0]
		for _, it := range g[1:] {
			j = x.joinItems(j, it, fr, b)
		}
		out = append(out, j)
	}
	return out
}

// pinned keeps partitions apart whose live boolean/nil-ness constants differ.
func pinned(env map[ssa.Value]*V) string {
	ks := []string{}
	for k, v := range env {
		if v.k == KNil || v.k == KConst {
			ks = append(ks, fmt.Sprintf("%p=%d", k, v.id))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func isPhiOf(v ssa.Value, b *ssa.BasicBlock) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == b
}

func (x *Exec) joinVal(a, b *V, where string) *V {
	if a == b {
		return a
	}
	// values which differ in some fields of a common value
	ba, fa := fieldsOver(a)
	bb, fb := fieldsOver(b)
	if ba == bb && len(fa)+len(fb) > 0 {
		sels := []*V{}
		for s := range fa {
			sels = append(sels, s)
		}
		for s := range fb {
			if fa[s] == nil {
				sels = append(sels, s)
			}
		}
		sort.Slice(sels, func(i, j int) bool { return sels[i].id < sels[j].id })
		r := ba
		for _, s := range sels {
			va, vb := fa[s], fb[s]
			if va == nil {
				va = project(ba, s)
			}
			if vb == nil {
				vb = project(ba, s)
			}
			r = update(r, s, x.joinVal(va, vb, where+"."+s.op))
		}
		return r
	}
	return Sym("join:" + where)
}

// fieldsOver splits a struct value into the value it was made of and the fields set since.
func fieldsOver(v *V) (*V, map[*V]*V) {
	m := map[*V]*V{}
	for v.k == KStruct && len(v.args) > 0 {
		for i := 1; i+1 < len(v.args); i += 2 {
			if !isFieldSel(v.args[i]) {
				return v, m
			}
			if m[v.args[i]] == nil {
				m[v.args[i]] = v.args[i+1]
			}
		}
		v = v.args[0]
	}
	return v, m
}

func (x *Exec) joinStates(a, b *State, where string) *State {
	n := newState()
	n.ev = a.ev
	n.rec = a.rec
	n.trail = a.trail
	for k, v := range a.mem {
		if w, ok := b.mem[k]; ok {
			n.mem[k] = x.joinVal(v, w, where+":m"+strconv.Itoa(k.id))
		} else {
			n.mem[k] = v
		}
	}
	for k, v := range b.mem {
		if _, ok := a.mem[k]; !ok {
			n.mem[k] = v
		}
	}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; ok && w == v {
			n.facts[k] = v
		}
	}
	return n
}

func (x *Exec) joinItems(a, b *item, fr *frame, blk *ssa.BasicBlock) *item {
	where := fmt.Sprintf("%d.%d", fr.site.id, blk.Index)
	st := x.joinStates(a.st, b.st, where)
	env := map[ssa.Value]*V{}
	for k, v := range a.env {
		if w, ok := b.env[k]; ok {
			if v != w {
				sym := Sym("join:" + where + ":" + k.Name())
				for f := range st.facts {
					if f.mentions(func(y *V) bool { return y == sym }) {
						delete(st.facts, f)
					}
				}
				env[k] = sym
			} else {
				env[k] = v
			}
		}
	}
	return &item{blk: blk, env: env, st: st, loops: a.loops, defs: a.defs}
}

func (x *Exec) mergeOutcomes(outs []Outcome, fr *frame) []Outcome {
	seen := map[string]bool{}
	res := []Outcome{}
	okey := func(o Outcome) string {
		s := strconv.FormatBool(o.panic)
		for _, v := range o.vals {
			s += "," + strconv.Itoa(v.id)
		}
		return s
	}
	for _, o := range outs {
		k := okey(o) + "#" + o.st.key()
		if !seen[k] {
			seen[k] = true
			res = append(res, o)
		}
	}
	np := 0
	for _, o := range res {
		if o.panic {
			np++
		}
	}
	if len(res)-np <= x.C.OutLimit && np <= 1 {
		return res
	}
	groups := map[string][]Outcome{}
	order := []string{}
	for _, o := range res {
		k := strconv.FormatBool(o.panic) + o.st.evKey()
		if !o.panic && len(res)-np <= x.C.OutLimit {
			k = okey(o) + "#" + o.st.key()
		}
		for _, v := range o.vals {
			if o.panic {
				break
			}
			if v.k == KConst || v.k == KNil {
				k += "," + strconv.Itoa(v.id)
			} else if n, ok := x.isNil(o.st, v); ok {
				k += ",n" + strconv.FormatBool(n)
			} else {
				k += ",?"
			}
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	out := []Outcome{}
	for _, k := range order {
		g := groups[k]
		j := g[0]
		for _, o := range g[1:] {
			where := fmt.Sprintf("%d.out", fr.site.id)
			st := x.joinStates(j.st, o.st, where)
			vals := []*V{}
			for i := range j.vals {
				v := j.vals[i]
				if i < len(o.vals) && o.vals[i] != v {
					nv := x.joinVal(v, o.vals[i], where+strconv.Itoa(i)+fmt.Sprint(len(out)))
					if n, ok := x.isNil(j.st, v); ok {
						if n2, ok := x.isNil(o.st, o.vals[i]); ok && n == n2 {
							if n {
								nv = vNil
							} else {
								st.facts[mkIsNil(nv)] = false
							}
						}
					}
					v = nv
				}
				vals = append(vals, v)
			}
			j = Outcome{panic: j.panic, vals: vals, st: st, pos: j.pos}
		}
		out = append(out, j)
	}
	return out
}

func (x *Exec) siteOf(fr *frame, in ssa.Instruction, it *item) *V {
	s := strconv.Itoa(fr.info.instr[in])
	ks := []string{}
	for h, l := range it.loops {
		if fr.info.header[h][in.Block()] {
			if l.widened {
				ks = append(ks, strconv.Itoa(h.Index)+"w")
			} else {
				ks = append(ks, strconv.Itoa(h.Index)+"."+strconv.Itoa(l.n))
			}
		}
	}
	sort.Strings(ks)
	v := rawApp("site", fr.site, Sym(s+"["+strings.Join(ks, " ")+"]"))
	return v
}

func (x *Exec) val(fr *frame, it *item, v ssa.Value) *V {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return Zero(c.Type())
		}
		k := c.Value
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			k = constant.ToInt(k)
		}
		return Const(k)
	case *ssa.Global:
		return x.globalAddr(c)
	case *ssa.Function:
		return Fn(c)
	case *ssa.Builtin:
		return Sym("builtin:" + c.Name())
	}
	if r, ok := it.env[v]; ok {
		return r
	}
	return Sym("undef:" + v.Name())
}

func (x *Exec) globalAddr(g *ssa.Global) *V {
	op := "global:"
	t := g.Type().(*types.Pointer).Elem()
	if isErrType(t) {
		op = "global:err:"
	}
	return intern(KAddr, "", []*V{rawApp(op + strings.ReplaceAll(g.Pkg.Pkg.Path(), modPath+"/", "") + "." + g.Name())}, nil, nil, nil, 0)
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func isErrType(t types.Type) bool {
	return types.Implements(t, errIface)
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (x *Exec) goTo(fr *frame, it *item, from, to *ssa.BasicBlock, st *State, push func(*item), widenSeen map[string]bool) {
	env := it.env
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	ne := make(map[ssa.Value]*V, len(env))
	live := fr.info.livein[to]
	for k, v := range env {
		if live[k] {
			ne[k] = v
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ne[ph] = x.val(fr, it, ph.Edges[pi])
	}
	loops := it.loops
	// leaving loops / entering headers
	needCopy := false
	for h := range loops {
		if !fr.info.header[h][to] {
			needCopy = true
		}
	}
	body := fr.info.header[to]
	if needCopy || body != nil {
		nl := map[*ssa.BasicBlock]loopSt{}
		for h, l := range loops {
			if fr.info.header[h][to] {
				nl[h] = l
			}
		}
		loops = nl
	}
	if body != nil {
		back := body[from]
		l := loops[to]
		if !back {
			l = loopSt{n: 0, entry: st.clone(), entryE: ne}
		} else {
			l.n++
			if l.constB && l.n <= 70 {
				// constant bound: keep unrolling
			} else if l.n > x.C.Unroll || l.widened {
				if x.C.Cut {
					return
				}
				st, ne = x.widen(fr, to, l, st, ne)
				l.widened = true
				// everything that differs from the entry is forgotten
				k := fmt.Sprintf("%d#", to.Index) + st.evKey() + "#" + envKey(ne) + "#" + memKey(st) + "#" + loopKeyExcept(loops, to)
				if widenSeen[k] {
					return
				}
				widenSeen[k] = true
			}
			l.constB = false
		}
		loops[to] = l
	}
	push(&item{blk: to, env: ne, st: st, loops: loops, defs: it.defs})
}

func memKey(st *State) string {
	ks := []string{}
	for k, v := range st.mem {
		ks = append(ks, strconv.Itoa(k.id)+"="+strconv.Itoa(v.id))
	}
	for k, v := range st.facts {
		ks = append(ks, "f"+strconv.Itoa(k.id)+strconv.FormatBool(v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func loopKeyExcept(l map[*ssa.BasicBlock]loopSt, b *ssa.BasicBlock) string {
	n := map[*ssa.BasicBlock]loopSt{}
	for k, v := range l {
		if k != b {
			n[k] = v
		}
	}
	return loopKey(n)
}

func (x *Exec) widen(fr *frame, h *ssa.BasicBlock, l loopSt, st *State, env map[ssa.Value]*V) (*State, map[ssa.Value]*V) {
	where := fmt.Sprintf("%d.%d", fr.site.id, h.Index)
	n := newState()
	n.ev, n.rec, n.trail = st.ev, st.rec, st.trail
	for k, v := range st.mem {
		if o, ok := l.entry.mem[k]; ok {
			if o == v {
				n.mem[k] = v
			} else {
				n.mem[k] = Sym("loop:" + where + ":m" + strconv.Itoa(k.id))
			}
		} else if !k.is("alloc") {
			n.mem[k] = Sym("loop:" + where + ":m" + strconv.Itoa(k.id))
		} else {
			n.mem[k] = v
		}
	}
	for k, v := range st.facts {
		if o, ok := l.entry.facts[k]; ok && o == v {
			n.facts[k] = v
		}
	}
	ne := map[ssa.Value]*V{}
	for k, v := range env {
		if o, ok := l.entryE[k]; ok && o == v {
			ne[k] = v
			continue
		}
		if isPhiOf(k, h) {
			ne[k] = Sym("loop:" + where + ":" + k.Name())
		} else {
			ne[k] = v
		}
	}
	return n, ne
}

func (x *Exec) block(fr *frame, it *item, start int, push func(*item), outs *[]Outcome, widenSeen map[string]bool) {
	b := it.blk
	for i := start; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > x.maxStep {
			x.giveUp = "step budget exhausted in " + shortFn(fr.fn)
			return
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			cond := x.val(fr, it, in.Cond)
			x.ifs++
			if x.C.OnIf != nil {
				x.C.OnIf(x, cond, it.st)
			}
			if bv, ok := boolOf(cond); ok {
				// constant decision: if this If leaves a loop, the loop has a constant bound
				for h, body := range fr.info.header {
					if body[b] && (body[b.Succs[0]] != body[b.Succs[1]]) && dependsOnPhi(in.Cond, h, 6) {
						if l, ok := it.loops[h]; ok && !l.widened {
							nl := map[*ssa.BasicBlock]loopSt{}
							for k, v := range it.loops {
								nl[k] = v
							}
							l.constB = true
							nl[h] = l
							it.loops = nl
						}
					}
				}
				t := b.Succs[1]
				if bv {
					t = b.Succs[0]
				}
				x.goTo(fr, it, b, t, it.st, push, widenSeen)
				return
			}
			if bv, ok := x.eval(it.st, cond); ok {
				t := b.Succs[1]
				if bv {
					t = b.Succs[0]
				}
				x.goTo(fr, it, b, t, it.st, push, widenSeen)
				return
			}
			s1 := it.st.clone()
			s2 := it.st
			x.assume(s1, cond, true)
			x.assume(s2, cond, false)
			x.goTo(fr, it, b, b.Succs[0], s1, push, widenSeen)
			x.goTo(fr, it, b, b.Succs[1], s2, push, widenSeen)
			return
		case *ssa.Jump:
			x.goTo(fr, it, b, b.Succs[0], it.st, push, widenSeen)
			return
		case *ssa.Return:
			vals := []*V{}
			for _, r := range in.Results {
				vals = append(vals, x.val(fr, it, r))
			}
			if x.C.OnRet != nil {
				x.C.OnRet(x, fr, vals, it.st, in.Pos())
			}
			*outs = append(*outs, Outcome{vals: vals, st: it.st, pos: in.Pos()})
			return
		case *ssa.Panic:
			x.doPanic(fr, it, outs, []*V{x.val(fr, it, in.X)}, in.Pos(), push, widenSeen)
			return
		case *ssa.RunDefers:
			defs := it.defs
			it.defs = nil
			x.runDefers(fr, it, defs, func(it2 *item) {
				x.block(fr, it2, i+1, push, outs, widenSeen)
			}, outs, push, widenSeen)
			return
		case *ssa.Defer:
			d := deferRec{call: in}
			c := in.Common()
			if c.IsInvoke() {
				d.invk = x.val(fr, it, c.Value)
			} else {
				d.fn = x.val(fr, it, c.Value)
			}
			for _, a := range c.Args {
				d.args = append(d.args, x.val(fr, it, a))
			}
			it.defs = append(append([]deferRec{}, it.defs...), d)
		case *ssa.Go:
			x.opaque["go statement"]++
		case *ssa.Call:
			res := x.call(fr, it, in, nil)
			if len(res) == 1 && !res[0].panic {
				it.st = res[0].st
				it.env[in] = packRes(in.Call.Signature(), res[0].vals)
				continue
			}
			for _, o := range res {
				if o.panic {
					it2 := &item{blk: b, env: it.env, st: o.st, loops: it.loops, defs: it.defs}
					x.doPanic(fr, it2, outs, o.vals, o.pos, push, widenSeen)
					continue
				}
				ne := make(map[ssa.Value]*V, len(it.env)+1)
				for k, v := range it.env {
					ne[k] = v
				}
				ne[in] = packRes(in.Call.Signature(), o.vals)
				x.block(fr, &item{blk: b, env: ne, st: o.st, loops: it.loops, defs: it.defs}, i+1, push, outs, widenSeen)
			}
			return
		case *ssa.Store:
			a, v := x.val(fr, it, in.Addr), x.val(fr, it, in.Val)
			if x.C.OnStore != nil {
				x.C.OnStore(x, a, v, it.st, in, fr)
			}
			x.store(it.st, a, v)
		case *ssa.MapUpdate:
			m, k, v := x.val(fr, it, in.Map), x.val(fr, it, in.Key), x.val(fr, it, in.Value)
			cur, ok := it.st.mem[m]
			if !ok {
				cur = m
			}
			it.st.mem[m] = rawApp("mapput", cur, k, v)
		case *ssa.Send, *ssa.Select:
			x.opaque["channel operation"]++
			if v, ok := in.(ssa.Value); ok {
				it.env[v] = rawApp("chan", x.siteOf(fr, in, it))
			}
		case ssa.Value:
			it.env[in] = x.value(fr, it, in)
		}
	}
}

func packRes(sig *types.Signature, vals []*V) *V {
	switch sig.Results().Len() {
	case 0:
		return Tuple()
	case 1:
		if len(vals) == 0 {
			return Sym("missing")
		}
		return vals[0]
	}
	return Tuple(vals...)
}

func (x *Exec) doPanic(fr *frame, it *item, outs *[]Outcome, vals []*V, pos token.Pos, push func(*item), widenSeen map[string]bool) {
	if len(it.defs) == 0 || fr.fn.Recover == nil {
		*outs = append(*outs, Outcome{panic: true, vals: vals, st: it.st, pos: pos})
		return
	}
	st := it.st.clone()
	st.rec = true
	it2 := &item{blk: it.blk, env: it.env, st: st, loops: it.loops}
	x.runDefers(fr, it2, it.defs, func(it3 *item) {
		if it3.st.rec { // nobody recovered
			it3.st.rec = false
			*outs = append(*outs, Outcome{panic: true, vals: vals, st: it3.st, pos: pos})
			return
		}
		x.block(fr, &item{blk: fr.fn.Recover, env: it3.env, st: it3.st, loops: map[*ssa.BasicBlock]loopSt{}}, 0, push, outs, widenSeen)
	}, outs, push, widenSeen)
}

func (x *Exec) runDefers(fr *frame, it *item, defs []deferRec, k func(*item), outs *[]Outcome, push func(*item), widenSeen map[string]bool) {
	if len(defs) == 0 {
		k(it)
		return
	}
	d := defs[len(defs)-1]
	rest := defs[:len(defs)-1]
	for _, o := range x.call(fr, it, d.call, &d) {
		it2 := &item{blk: it.blk, env: it.env, st: o.st, loops: it.loops}
		if o.panic {
			it2.defs = rest
			x.doPanic(fr, it2, outs, o.vals, o.pos, push, widenSeen)
			continue
		}
		x.runDefers(fr, it2, rest, k, outs, push, widenSeen)
	}
}

func (x *Exec) value(fr *frame, it *item, in ssa.Value) *V {
	v := func(y ssa.Value) *V { return x.val(fr, it, y) }
	instr := in.(ssa.Instruction)
	switch in := in.(type) {
	case *ssa.Alloc:
		obj := rawApp("alloc", x.siteOf(fr, instr, it))
		it.st.mem[obj] = Zero(in.Type().(*types.Pointer).Elem())
		return intern(KAddr, "", []*V{obj}, nil, nil, nil, 0)
	case *ssa.BinOp:
		return x.binop(in, v(in.X), v(in.Y), it.st)
	case *ssa.UnOp:
		a := v(in.X)
		switch in.Op {
		case token.MUL:
			if g, ok := in.X.(*ssa.Global); ok {
				if f := x.P.globalFn(g); f != nil {
					return Fn(f)
				}
			}
			return x.load(it.st, a)
		case token.NOT:
			return App("not", a)
		case token.SUB:
			if n, ok := intOf(a); ok {
				return Int(-n)
			}
			return App("neg", a)
		}
		return rawApp("un:"+in.Op.String(), a, x.siteOf(fr, instr, it))
	case *ssa.FieldAddr:
		st := in.X.Type().Underlying().(*types.Pointer).Elem()
		a := stripIface(v(in.X))
		return Addr(a, FieldSel(st, in.Field))
	case *ssa.Field:
		return project(v(in.X), FieldSel(in.X.Type(), in.Field))
	case *ssa.IndexAddr:
		return Addr(stripIface(v(in.X)), v(in.Index))
	case *ssa.Index:
		return App("index", v(in.X), v(in.Index))
	case *ssa.Lookup:
		m := v(in.X)
		if c, ok := it.st.mem[m]; ok {
			m = c
		}
		k := v(in.Index)
		r, has := lookupMap(m, k)
		if r != nil && r.k == KNil && r != vNil {
			r = nil
		}
		if in.CommaOk {
			return Tuple(r, has)
		}
		if hb, ok := boolOf(has); ok && !hb {
			return Zero(in.Type())
		}
		return r
	case *ssa.Extract:
		t := v(in.Tuple)
		if t.k == KTuple && in.Index < len(t.args) {
			return t.args[in.Index]
		}
		return rawApp("res:"+strconv.Itoa(in.Index), t)
	case *ssa.MakeInterface:
		return Iface(in.X.Type(), v(in.X))
	case *ssa.ChangeInterface:
		return v(in.X)
	case *ssa.ChangeType:
		return v(in.X)
	case *ssa.Convert:
		a := v(in.X)
		if c, ok := intOf(a); ok {
			if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return Str(string(rune(c)))
			}
		}
		// string <-> []byte of memory
		if a.k == KAddr {
			if _, ok := in.Type().Underlying().(*types.Basic); ok {
				return x.load(it.st, a)
			}
		}
		return a
	case *ssa.SliceToArrayPointer:
		return v(in.X)
	case *ssa.MakeClosure:
		bs := []*V{}
		for _, b := range in.Bindings {
			bs = append(bs, v(b))
		}
		return Fn(in.Fn.(*ssa.Function), bs...)
	case *ssa.MakeMap:
		m := rawApp("makemap", x.siteOf(fr, instr, it))
		it.st.mem[m] = rawApp("emptymap")
		return m
	case *ssa.MakeSlice:
		l := v(in.Len)
		if n, ok := intOf(l); ok && n == 0 {
			return List()
		}
		obj := rawApp("alloc", x.siteOf(fr, instr, it))
		if n, ok := intOf(l); ok && n <= 64 {
			el := in.Type().Underlying().(*types.Slice).Elem()
			z := []*V{}
			for i := int64(0); i < n; i++ {
				z = append(z, Zero(el))
			}
			it.st.mem[obj] = List(z...)
		} else {
			it.st.mem[obj] = rawApp("makeslice", l, x.siteOf(fr, instr, it))
		}
		return intern(KAddr, "", []*V{obj}, nil, nil, nil, 0)
	case *ssa.Slice:
		a := v(in.X)
		orig := a
		if al, ok := in.X.(*ssa.Alloc); ok && al.Comment == "makeslice" && in.Low == nil {
			// make with constant length
			if n, ok := intOf(v(in.High)); ok && n == 0 {
				return List()
			}
			return a
		}
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			// slicing an array: snapshot of the elements
			c := x.load(it.st, a)
			if at, ok := pt.Elem().Underlying().(*types.Array); ok && in.Low == nil && in.High == nil && at.Len() <= 64 {
				es := []*V{}
				for i := int64(0); i < at.Len(); i++ {
					es = append(es, project(c, Int(i)))
				}
				return List(es...)
			}
			a = c
		}
		lo, hi := vNil, vNil
		if in.Low != nil {
			lo = v(in.Low)
		}
		if in.High != nil {
			hi = v(in.High)
		}
		if n, ok := intOf(lo); ok && n == 0 {
			lo = vNil
		}
		if intoCopy(in) {
			it.st.ev["view"] = rawApp("view", orig, lo)
		}
		if lo == vNil && hi == vNil {
			return a
		}
		if a.k == KAddr && onlyReturned(in) {
			if m := x.load(it.st, a); m.k == KList {
				a = m
			}
		}
		if a.k == KList || a.is("copy") {
			if m := x.contents(it.st, a); m.k == KList {
				a = m
			} else if m == a && a.is("copy") && a.args[0].k == KList {
				a = a.args[0]
			}
		}
		if a.k == KList {
			l, ok1 := int64(0), true
			if lo != vNil {
				l, ok1 = intOf(lo)
			}
			h, ok2 := int64(len(a.args)), true
			if hi != vNil {
				h, ok2 = intOf(hi)
			}
			if ok1 && ok2 && l <= h && h <= int64(len(a.args)) {
				return List(a.args[l:h]...)
			}
		}
		if a.k == KAddr {
			// a window of a local buffer: writes through it reach the buffer
			return a
		}
		return rawApp("slice", a, lo, hi)
	case *ssa.TypeAssert:
		a := v(in.X)
		if a.k == KIface {
			ok := false
			if it2, isI := in.AssertedType.Underlying().(*types.Interface); isI {
				ok = types.Implements(a.t, it2)
			} else {
				ok = types.Identical(a.t, in.AssertedType)
			}
			r := a
			if _, isI := in.AssertedType.Underlying().(*types.Interface); !isI {
				r = a.args[0]
			}
			if in.CommaOk {
				if !ok {
					r = Zero(in.AssertedType)
				}
				return Tuple(r, Bool(ok))
			}
			return r
		}
		r := a
		if in.CommaOk {
			return Tuple(r, rawApp("typeis:"+typeName(in.AssertedType), a))
		}
		return r
	case *ssa.Range:
		m := v(in.X)
		if c, ok := it.st.mem[m]; ok {
			m = c
		}
		return rawApp("range", m)
	case *ssa.Next:
		r := v(in.Iter)
		s := x.siteOf(fr, instr, it)
		key := rawApp("rangekey", r, s)
		return Tuple(rawApp("rangenext", r, s), key, rawApp("lookup", r, key))
	case *ssa.MultiConvert:
		return v(in.X)
	}
	return rawApp("unk:"+fmt.Sprintf("%T", in), x.siteOf(fr, instr, it))
}

func lookupMap(m, k *V) (*V, *V) {
	c := m
	for c.is("mapput") {
		if c.args[1] == k {
			return c.args[2], Bool(true)
		}
		if !(c.args[1].k == KConst && k.k == KConst) {
			break
		}
		c = c.args[0]
	}
	if c.is("emptymap") {
		return vNil, Bool(false)
	}
	return rawApp("lookup", m, k), rawApp("has", m, k)
}

func (x *Exec) binop(in *ssa.BinOp, a, b *V, st *State) *V {
	return binopV(in.Op, a, b)
}

func binopV(op token.Token, a, b *V) *V {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return App("not", mkEq(a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return App("not", mkLt(b, a))
	case token.GEQ:
		return App("not", mkLt(a, b))
	}
	return App("bin:"+op.String(), a, b)
}

// dependsOnPhi tells whether a loop's exit condition is computed from the loop's own induction variables.
func dependsOnPhi(v ssa.Value, h *ssa.BasicBlock, d int) bool {
	if d == 0 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Phi:
		return v.Block() == h
	case *ssa.BinOp:
		return dependsOnPhi(v.X, h, d-1) || dependsOnPhi(v.Y, h, d-1)
	case *ssa.UnOp:
		return dependsOnPhi(v.X, h, d-1)
	case *ssa.Convert:
		return dependsOnPhi(v.X, h, d-1)
	}
	return false
}

// intoCopy: the part of the list is what the next copy writes to.
func intoCopy(in *ssa.Slice) bool {
	if in.Referrers() == nil {
		return false
	}
	for _, r := range *in.Referrers() {
		if c, ok := r.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && c.Call.Args[0] == in {
				return true
			}
		}
	}
	return false
}

func onlyReturned(in *ssa.Slice) bool {
	if in.Referrers() == nil || len(*in.Referrers()) == 0 {
		return false
	}
	for _, r := range *in.Referrers() {
		if _, ok := r.(*ssa.Return); !ok {
			return false
		}
	}
	return true
}

// isTruth: the value is a comparison, a negation of one or a constant.
func isTruth(v *V) bool {
	if _, ok := boolOf(v); ok {
		return true
	}
	return v.is("lt") || v.is("eq") || v.is("not") || v.is("isnil")
}
