package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	refK = "x/referral/keeper"
	refT = "x/referral/types"
)

func init() {
	register("R01", ruleNetworkTotals)
	register("R02", ruleNetworkLinks)
	register("R03", ruleTransitions)
}

// recMachine gives the accesses to the records of the referral structure their meaning: a record read is what was last
// written for the account on the path, and the collected updates reach the store when they are committed. That the
// functions concerned do have this meaning is rule R06.
type recMachine struct {
	c                    *Check
	info                 types.Type
	upd, get, set        *ssa.Function // of the collector of updates
	commit, addCb, newBu *ssa.Function
	kget, kset           *ssa.Function // of the keeper
	init                 map[*V]*V     // what is assumed of the records of some accounts to begin with
}

func isInfoPtr(t types.Type, info types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && types.Identical(p.Elem(), info)
}

func (c *Check) refMachine() *recMachine {
	m := &recMachine{c: c, init: map[*V]*V{}}
	m.info = c.P.typeOf(refT, "Info")
	if m.info == nil {
		return nil
	}
	isStr := func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.String }
	isBool := func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.Bool }
	var owner types.Type
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+refK || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		ps := f.Signature.Params()
		if ps.Len() == 3 && isStr(ps.At(0).Type()) && isBool(ps.At(1).Type()) {
			if s, ok := ps.At(2).Type().Underlying().(*types.Signature); ok && s.Params().Len() == 1 && isInfoPtr(s.Params().At(0).Type(), m.info) && s.Results().Len() == 1 {
				m.upd = f
				owner = deref(f.Signature.Recv().Type())
			}
		}
	}
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+refK || f.Synthetic != "" {
			continue
		}
		ps, rs := f.Signature.Params(), f.Signature.Results()
		if f.Signature.Recv() == nil {
			if rs.Len() == 1 && owner != nil && types.Identical(deref(rs.At(0).Type()), owner) {
				m.newBu = f
			}
			continue
		}
		if owner != nil && types.Identical(deref(f.Signature.Recv().Type()), owner) {
			switch {
			case ps.Len() == 1 && rs.Len() == 2 && types.Identical(rs.At(0).Type(), m.info):
				m.get = f
			case ps.Len() == 2 && types.Identical(ps.At(1).Type(), m.info) && isStr(ps.At(0).Type()):
				m.set = f
			case ps.Len() == 0 && rs.Len() == 1 && isErrorType(rs.At(0).Type()):
				m.commit = f
			case ps.Len() == 2 && rs.Len() == 0 && isStr(ps.At(0).Type()) && isStr(ps.At(1).Type()):
				m.addCb = f
			}
			continue
		}
		if typeName(deref(f.Signature.Recv().Type())) == refK+".Keeper" {
			switch {
			case f.Name() == "Get":
				m.kget = f
			case ps.Len() == 3 && rs.Len() == 1 && isStr(ps.At(1).Type()) && types.Identical(ps.At(2).Type(), m.info):
				m.kset = f
			}
		}
	}
	c.oblige(m.upd != nil && m.get != nil && m.set != nil && m.commit != nil && m.addCb != nil && m.newBu != nil && m.kget != nil && m.kset != nil,
		"the operations on referral records are found", refK, m.upd, m.get, m.set, m.commit, m.addCb, m.newBu, m.kget, m.kset)
	if m.upd == nil || m.get == nil || m.set == nil || m.commit == nil || m.addCb == nil || m.kget == nil || m.kset == nil {
		return nil
	}
	return m
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func recSym(acc *V) *V { return rawApp("rec", acc) }

// current is the record of the account; buffered: with the updates not committed yet.
func (m *recMachine) current(st *State, acc *V, buffered bool) *V {
	if buffered {
		if r := st.ev["b:"+itoa(acc.id)]; r != nil {
			return r.args[1]
		}
	}
	if r := st.ev["s:"+itoa(acc.id)]; r != nil {
		return r.args[1]
	}
	if r := m.init[acc]; r != nil {
		return r
	}
	return recSym(acc)
}

func (m *recMachine) put(st *State, acc, rec *V, buffered bool) {
	k := "s:"
	if buffered {
		k = "b:"
	}
	st.ev[k+itoa(acc.id)] = rawApp("put", acc, rec)
}

// fresh is a copy of a record read: its lists are its own.
func (m *recMachine) fresh(rec *V, site *V) *V {
	s := m.info.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			f := project(rec, FieldSel(m.info, i))
			if f.k == KApp || f.k == KStruct || f.k == KList {
				rec = update(rec, FieldSel(m.info, i), rawApp("copy", f, site))
			}
		}
	}
	return rec
}

// thaw leaves out which copy of a list it is.
func thaw(v *V) *V {
	memo := map[*V]*V{}
	var rec func(v *V) *V
	rec = func(v *V) *V {
		if len(v.args) == 0 || v.k == KFunc {
			return v
		}
		if r, ok := memo[v]; ok {
			return r
		}
		if v.is("copy") {
			r := rec(v.args[0])
			memo[v] = r
			return r
		}
		args := make([]*V, len(v.args))
		ch := false
		for i, a := range v.args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := v
		if ch {
			r = intern(v.k, v.op, args, v.c, v.t, v.fn, v.idx)
		}
		memo[v] = r
		return r
	}
	return rec(v)
}

func addTrace(st *State, e Ev) {
	prev := st.ev["trace"]
	if prev == nil {
		prev = vNil
	}
	st.ev["trace"] = rawApp("ev", evTerm(e), prev)
	traceOf[st.ev["trace"]] = e
}

// call interprets the operations on records.
func (m *recMachine) call(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
	switch ci.Fn {
	case nil:
		return false, nil
	case m.newBu:
		return true, []Outcome{{vals: []*V{rawApp("updates", ci.Site)}, st: st}}
	case m.get:
		acc := stripIface(x.snap(st, ci.Args[1]))
		return true, []Outcome{{vals: []*V{m.fresh(m.current(st, acc, true), ci.Site), vNil}, st: st}}
	case m.kget:
		acc := stripIface(x.snap(st, ci.Args[2]))
		return true, []Outcome{{vals: []*V{m.fresh(m.current(st, acc, false), ci.Site), vNil}, st: st}}
	case m.set, m.kset:
		i := 1
		if ci.Fn == m.kset {
			i = 2
		}
		acc := stripIface(x.snap(st, ci.Args[i]))
		old := m.current(st, acc, ci.Fn == m.set)
		nv := thaw(x.snap(st, ci.Args[i+1]))
		m.put(st, acc, nv, ci.Fn == m.set)
		addTrace(st, Ev{Kind: "rec", Args: []*V{acc, old, nv, Bool(false)}, At: ci.Instr})
		return true, []Outcome{{vals: []*V{vNil}, st: st}}
	case m.commit:
		for k, v := range st.ev {
			if strings.HasPrefix(k, "b:") {
				st.ev["s:"+k[2:]] = v
				delete(st.ev, k)
			}
		}
		addTrace(st, Ev{Kind: "commit", At: ci.Instr})
		return true, []Outcome{{vals: []*V{vNil}, st: st}}
	case m.addCb:
		addTrace(st, Ev{Kind: "callback", Args: snapAll(x, st, ci.Args[1:]), At: ci.Instr})
		return true, []Outcome{{vals: nil, st: st}}
	case m.upd:
		acc := stripIface(x.snap(st, ci.Args[1]))
		check := x.snap(st, ci.Args[2])
		fv := stripIface(ci.Args[3])
		if fv.k != KFunc {
			return false, nil
		}
		obj := rawApp("alloc", rawApp("rec", ci.Site))
		old := m.current(st, acc, true)
		st.mem[obj] = m.fresh(old, ci.Site)
		addr := Addr(obj)
		sub := &CallInfo{Fn: fv.fn, Name: canonName(fv.fn), Args: []*V{addr}, Site: rawApp("site", ci.Site, Sym("callback")), Instr: ci.Instr, Sig: fv.fn.Signature, Ctx: ci.Ctx}
		var res []Outcome
		for _, o := range x.exec(sub.Fn, sub.Args, fv.args, st, sub.Site, ci.Ctx) {
			if o.panic {
				o = Outcome{vals: []*V{rawApp("err:panic", ci.Site)}, st: o.st, pos: o.pos}
			}
			if n, ok := x.isNil(o.st, o.vals[0]); ok && !n {
				res = append(res, o)
				continue
			} else if !ok {
				s2 := o.st.clone()
				x.assume(s2, mkIsNil(o.vals[0]), false)
				res = append(res, Outcome{vals: o.vals, st: s2, pos: o.pos})
				x.assume(o.st, mkIsNil(o.vals[0]), true)
			}
			nv := thaw(x.snap(o.st, x.load(o.st, addr)))
			m.put(o.st, acc, nv, true)
			addTrace(o.st, Ev{Kind: "rec", Args: []*V{acc, old, nv, check}, At: ci.Instr})
			res = append(res, Outcome{vals: []*V{vNil}, st: o.st, pos: o.pos})
		}
		return true, res
	}
	return false, nil
}

func (m *recMachine) opts(hyp func(a *V) (bool, bool)) pathOpts {
	own := samePkgOf(modPath + "/" + refK)
	return pathOpts{inline: func(f *ssa.Function) bool {
		return own(f) && f.Name() != "RegistrationClosed" && !onStrings(f)
	}, unroll: 12, limit: 3000, outLimit: 3000, onCall: m.call,
		watchI: inPkg(schedK),
		hyp: func(x *Exec, a *V, st *State) (bool, bool) {
			if hyp != nil {
				if v, ok := hyp(a); ok {
					return v, ok
				}
			}
			return wellCoded(x, a, st)
		}}
}

// onStrings: a helper on lists of texts.
func onStrings(f *ssa.Function) bool {
	if fnPkgPath(f) != modPath+"/util" {
		return false
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if s, ok := deref(f.Signature.Params().At(i).Type()).Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.String]) {
			return true
		}
	}
	return false
}

// change is what a path did to the record of one account.
type change struct {
	acc, old, nv *V
	check        bool // the requirements of the status are looked at (for some update)
	saved        bool
	first        int
}

func (m *recMachine) changes(p *Path) []*change {
	by := map[*V]*change{}
	var r []*change
	for i, e := range p.Ev {
		switch e.Kind {
		case "rec":
			ch := by[e.Args[0]]
			if ch == nil {
				ch = &change{acc: e.Args[0], old: e.Args[1], first: i}
				by[e.Args[0]] = ch
				r = append(r, ch)
			}
			ch.nv = e.Args[2]
			if b, ok := boolOf(e.Args[3]); ok && b {
				ch.check = true
			}
		}
	}
	for _, ch := range r {
		s := p.O.st.ev["s:"+itoa(ch.acc.id)]
		ch.saved = s != nil && s.args[1] == ch.nv
	}
	return r
}

func (m *recMachine) field(v *V, name string) *V { return fieldVal(v, m.info, name) }

// subtree is an amount of network (by depth) which joins or leaves the network of the accounts above.
type subtree struct {
	first *V  // the lowest account whose network changes
	off   int // the depth of the root of the subtree below that account
	sign  int64
	what  func(field string, depth int) Lin
}

var netFields = []string{"Coins", "Delegated", "ActiveRefCounts"}

const netDepth = 10

// chain lists the accounts from first upwards which have the changed network within ten levels, as far as the path knows
// them to exist; ended tells that the path knows where the chain ends.
func (m *recMachine) chain(p *Path, first *V) (accs []*V, ended bool) {
	a := first
	for n := 1; n <= netDepth; n++ {
		if p.empty(a) {
			return accs, true
		}
		accs = append(accs, a)
		a = m.field(m.before(p, a), "Referrer")
	}
	return accs, true
}

// empty: the path knows the text to be empty.
func (p *Path) empty(a *V) bool {
	if r, ok := p.known(mkEq(a, Str(""))); ok {
		return r
	}
	for f, v := range p.facts() {
		if v && f.is("eq") {
			for i := 0; i < 2; i++ {
				if f.args[i] == a {
					if r, ok := p.known(mkEq(f.args[1-i], Str(""))); ok && r {
						return true
					}
				}
			}
		}
	}
	return false
}

// before is the record of the account when the operation began.
func (m *recMachine) before(p *Path, a *V) *V {
	if r := m.init[a]; r != nil {
		return r
	}
	return recSym(a)
}

// delta is by how much an element of a list of numbers changes.
func (m *recMachine) delta(p *Path, ch *change, field string, j int) Lin {
	o, n := m.field(ch.old, field), m.field(ch.nv, field)
	return p.zeroed(numLin(project(n, Int(int64(j)))).add(numLin(project(o, Int(int64(j)))), -1))
}

// zeroed leaves out the terms which the path knows to be zero.
func (p *Path) zeroed(l Lin) Lin {
	r := Lin{}
	for t, k := range l {
		if t != unit && p.isZero(t) {
			continue
		}
		r[t] = k
	}
	if r.zero() {
		return r
	}
	for f, b := range p.facts() { // a difference known to be zero
		if b && f.is("eq") {
			if d := numLin(f.args[0]).add(numLin(f.args[1]), -1); r.eq(d) || r.add(d, 1).zero() {
				return Lin{}
			}
		}
	}
	return r
}

func (m *recMachine) elem(acc *V, field string, depth int, p *Path) Lin {
	if depth < 0 || depth > netDepth {
		return Lin{}
	}
	return numLin(project(m.field(m.before(p, acc), field), Int(int64(depth))))
}

// checkNetwork compares what a path changed with the subtrees that moved.
func (m *recMachine) checkNetwork(c *Check, what string, p *Path, subject *V, sts []subtree, recheck bool) {
	want := map[*V]map[string][]Lin{}
	var accs []*V
	var over *V
	chains := [][]*V{}
	for _, s := range sts {
		ch, _ := m.chain(p, s.first)
		chains = append(chains, ch)
	}
	// where two chains meet at the same height they go on together
	for i := range chains {
		for j := 0; j < i; j++ {
			for n := 0; n < len(chains[i]) && n < len(chains[j]); n++ {
				if r, ok := p.known(mkEq(chains[i][n], chains[j][n])); ok && r && chains[i][n] != chains[j][n] {
					chains[i], chains[j] = chains[i][:n], chains[j][:n]
				}
			}
		}
	}
	for i, s := range sts {
		for n, a := range chains[i] {
			if want[a] == nil {
				want[a] = map[string][]Lin{}
				accs = append(accs, a)
				for _, f := range netFields {
					for j := 0; j <= netDepth; j++ {
						want[a][f] = append(want[a][f], Lin{})
					}
				}
			}
			for _, f := range netFields {
				for j := 0; j <= netDepth; j++ {
					if d := j - (n + 1) - s.off; d >= 0 && d <= netDepth {
						want[a][f][j] = want[a][f][j].add(s.what(f, d), s.sign)
					}
				}
			}
		}
	}
	got := map[*V]*change{}
	for _, ch := range m.changes(p) {
		got[ch.acc] = ch
		if ch.acc != subject && want[ch.acc] == nil {
			for _, f := range netFields {
				for j := 0; j <= netDepth; j++ {
					if !m.delta(p, ch, f, j).zero() {
						over = ch.acc
					}
				}
			}
		}
	}
	c.oblige(over == nil, what+": only the accounts above change their network totals", p.exit(c), over)
	for n, a := range accs {
		ch := got[a]
		bad := ""
		deleg := false
		for _, f := range netFields {
			for j := 0; j <= netDepth; j++ {
				w := p.zeroed(want[a][f][j])
				g := Lin{}
				if ch != nil {
					g = m.delta(p, ch, f, j)
				}
				if !w.eq(g) && !p.zeroed(w.add(g, -1)).zero() {
					bad = f + " at level " + itoa(j) + ": got " + g.String() + ", due " + w.String()
				}
				if f == "Delegated" && !w.zero() {
					deleg = true
				}
			}
		}
		c.oblige(bad == "", what+": the totals of each of the ten levels above change by what moved", p.exit(c)+" ancestor "+itoa(n+1), clip(bad, 600))
		if ch == nil || bad != "" {
			continue
		}
		c.oblige(ch.saved, what+": the changed records are stored", p.exit(c)+" ancestor "+itoa(n+1))
		if recheck {
			c.oblige(ch.check, what+": the status of an account whose network changes is reconsidered", p.exit(c)+" ancestor "+itoa(n+1))
		}
		if deleg && stakeDust[what] == "" {
			ev := c.stakeEvent()
			c.oblige(p.has(func(e Ev) bool { return e.Kind == "callback" && e.Args[0] == ev && e.Args[1] == a }),
				what+": a change of the delegated total is announced", p.exit(c)+" ancestor "+itoa(n+1))
		}
	}
}

// operations that move nothing but delegations not above the dust level, which count for nothing
var stakeDust = map[string]string{"banishing": "dust", "coming back": "dust"}

// stakeEvent names the event that the validators' stakes hang on.
func (c *Check) stakeEvent() *V {
	for ev, fs := range c.hooksOf(refK) {
		for _, f := range fs {
			if f.Name() == "OnStakeChanged" {
				return Str(ev)
			}
		}
	}
	return nil
}

func (p *Path) ok() bool { return p.Ok && !p.O.panic }

func ruleNetworkTotals(c *Check) {
	m := c.refMachine()
	if m == nil {
		return
	}
	k, ctx, acc, parent := Sym("k"), Sym("ctx"), Sym("acc"), Sym("parent")
	bal := func(who *V, ds ...string) func(Lin) bool { return func(l Lin) bool { return balanceOf(l, who, ds) } }
	n := 0
	own := func(w func(string, int) Lin) func(string, int) Lin {
		return func(f string, d int) Lin {
			if d != 0 {
				return Lin{}
			}
			return w(f, d)
		}
	}
	run := func(what string, f *ssa.Function, args []*V, o pathOpts, recheck bool, moved func(p *Path, ch map[*V]*change) []subtree) {
		if f == nil {
			return
		}
		seen, long := 0, 0
		for _, p := range c.paths(f, args, o) {
			if !p.ok() {
				continue
			}
			chs := map[*V]*change{}
			for _, ch := range m.changes(p) {
				chs[ch.acc] = ch
			}
			sts := moved(p, chs)
			if sts == nil {
				continue
			}
			seen++
			if len(chs) >= netDepth {
				long++
			}
			m.checkNetwork(c, what, p, acc, sts, recheck)
		}
		n += seen
		c.oblige(long > 0, what+": paths up to ten levels above are found", what, seen)
	}
	closed := func(a *V) (bool, bool) { // the search for an open referrer is followed for two steps
		if strings.HasSuffix(a.op, ".RegistrationClosed") && a.hasOp("call:") {
			d := 0
			for v := stripIface(a.args[0]); v.k == KApp && len(v.args) == 1; v = v.args[0] {
				if v.is("rec") {
					d++
				}
			}
			if d > 2 {
				return false, true
			}
		}
		return false, false
	}
	run("a new account", c.method(refK, "Keeper", "AppendChild"), []*V{k, ctx, parent, acc}, m.opts(nil), true, func(p *Path, chs map[*V]*change) []subtree {
		ch := chs[acc]
		if ch == nil {
			return nil
		}
		w := own(func(f string, d int) Lin {
			if f == "ActiveRefCounts" {
				return Lin{}
			}
			return numLin(project(m.field(ch.nv, f), Int(0)))
		})
		c.oblige(bal(acc, "uartr", "uartrd", "uartrr")(w("Coins", 0)) && bal(acc, "uartrd")(w("Delegated", 0)), "a new account counts with all it has", p.exit(c), w("Coins", 0).String())
		return []subtree{{first: parent, sign: 1, what: w}}
	})
	net := func(of *V) func(*Path) func(string, int) Lin {
		return func(p *Path) func(string, int) Lin {
			return func(f string, d int) Lin { return m.elem(of, f, d, p) }
		}
	}
	below := func(w func(string, int) Lin) func(string, int) Lin {
		return func(f string, d int) Lin {
			if d == 0 {
				return Lin{}
			}
			return w(f, d)
		}
	}
	set1 := func(a *V, fs ...interface{}) {
		r := recSym(a)
		for i := 0; i < len(fs); i += 2 {
			r = update(r, m.sel(fs[i].(string)), fs[i+1].(*V))
		}
		m.init[a] = r
	}
	up := m.field(recSym(acc), "Referrer")

	set1(acc, "Referrals", List())
	run("compression", c.method(refK, "Keeper", "Compress"), []*V{k, ctx, acc}, m.opts(nil), true, func(p *Path, chs map[*V]*change) []subtree {
		ch := chs[acc]
		if ch == nil {
			return nil
		}
		bad := ""
		for _, f := range netFields {
			for j := 1; j <= netDepth; j++ {
				if l := numLin(project(m.field(ch.nv, f), Int(int64(j)))); !l.zero() {
					bad = f
				}
			}
		}
		c.oblige(bad == "", "compression: the account is left without a network", p.exit(c), bad)
		c.oblige(m.delta(p, ch, "Coins", 0).zero() && m.delta(p, ch, "Delegated", 0).zero(), "compression: the account keeps its own coins", p.exit(c))
		w := below(net(acc)(p))
		return []subtree{{first: up, sign: -1, what: w}, {first: up, off: -1, sign: 1, what: w}}
	})
	delete(m.init, acc)

	run("banishing", c.method(refK, "Keeper", "Banish"), []*V{k, ctx, acc}, m.opts(nil), true, func(p *Path, chs map[*V]*change) []subtree {
		w := own(net(acc)(p))
		return []subtree{{first: up, sign: -1, what: func(f string, d int) Lin {
			if f == "ActiveRefCounts" {
				return Lin{}
			}
			return w(f, d)
		}}}
	})

	run("coming back", c.method(refK, "Keeper", "ComeBack"), []*V{k, ctx, acc}, m.opts(closed), true, func(p *Path, chs map[*V]*change) []subtree {
		ch := chs[acc]
		if ch == nil {
			return nil
		}
		w := own(net(acc)(p))
		return []subtree{{first: m.field(ch.nv, "Referrer"), sign: 1, what: func(f string, d int) Lin {
			if f == "ActiveRefCounts" {
				return Lin{}
			}
			return w(f, d)
		}}}
	})

	run("a changed balance", c.method(refK, "Keeper", "OnBalanceChanged"), []*V{k, ctx, acc}, m.opts(closed), true, func(p *Path, chs map[*V]*change) []subtree {
		ch := chs[acc]
		if ch == nil {
			return nil
		}
		at := func(r *V) func(string, int) Lin {
			return own(func(f string, d int) Lin {
				if f == "ActiveRefCounts" {
					return Lin{}
				}
				return numLin(project(m.field(r, f), Int(0)))
			})
		}
		c.oblige(bal(acc, "uartr", "uartrd", "uartrr")(at(ch.nv)("Coins", 0)) && bal(acc, "uartrd")(at(ch.nv)("Delegated", 0)), "a changed balance counts with all the account has", p.exit(c))
		was, ok1 := p.known(m.field(ch.old, "Banished"))
		is, ok2 := p.known(m.field(ch.nv, "Banished"))
		if b, ok := boolOf(m.field(ch.nv, "Banished")); ok {
			is, ok2 = b, true
		}
		if !c.oblige(ok2 && (ok1 || m.field(ch.nv, "Banished") == m.field(ch.old, "Banished")), "a changed balance: it is known whether the account is banished", p.exit(c)) {
			return nil
		}
		to := m.field(ch.nv, "Referrer")
		switch {
		case is:
			return []subtree{{first: Str(""), sign: 1, what: at(ch.nv)}}
		case was:
			return []subtree{{first: to, sign: 1, what: at(ch.nv)}}
		}
		return []subtree{{first: up, sign: 1, what: at(ch.nv)}, {first: up, sign: -1, what: at(ch.old)}}
	})

	val := Sym("value")
	run("activity", c.method(refK, "Keeper", "SetActive"), []*V{k, ctx, acc, val, Bool(true)}, m.opts(nil), true, func(p *Path, chs map[*V]*change) []subtree {
		ch := chs[acc]
		if ch == nil {
			return nil
		}
		v, ok1 := p.known(val)
		d := m.delta(p, ch, "ActiveRefCounts", 0)
		s := int64(1)
		if !v {
			s = -1
		}
		if m.field(ch.nv, "Active") == m.field(ch.old, "Active") {
			return []subtree{{first: Str(""), sign: 1, what: at0}}
		}
		c.oblige(ok1 && d.eq(Lin{unit: s}), "activity: the account counts itself", p.exit(c), d.String())
		return []subtree{{first: up, sign: s, what: own(func(f string, d int) Lin {
			if f == "ActiveRefCounts" {
				return Lin{unit: 1}
			}
			return Lin{}
		})}}
	})

	to := m.field(recSym(acc), "Transition")
	set1(up, "Referrals", List(acc), "ActiveReferrals", List(acc))
	o := m.opts(nil)
	o.limit, o.outLimit = 4000, 4000
	run("transition", c.method(refK, "Keeper", "AffirmTransition"), []*V{k, ctx, acc}, o, true, func(p *Path, chs map[*V]*change) []subtree {
		w := net(acc)(p)
		return []subtree{{first: up, sign: -1, what: w}, {first: to, sign: 1, what: w}}
	})
	delete(m.init, up)
	c.oblige(n >= 60, "enough operations on the network are analysed", refK, n)
}

func at0(string, int) Lin { return Lin{} }

// sel selects a field of the records.
func (m *recMachine) sel(name string) *V {
	s := m.info.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return FieldSel(m.info, i)
		}
	}
	panic("no field " + name)
}

// balanceOf: the form is the balance of the account in the denominations.
func balanceOf(l Lin, who *V, ds []string) bool {
	if len(l) != len(ds) {
		return false
	}
	have := map[string]bool{}
	for t, k := range l {
		if k != 1 || !t.is("amountof") || !strings.Contains(t.args[0].op, "GetBalance") || !mention(t.args[0], who) {
			return false
		}
		d, _ := strOf(t.args[1])
		have[d] = true
	}
	for _, d := range ds {
		if !have[d] {
			return false
		}
	}
	return true
}

// typeOf is a named type of a package of the repository.
func (P *Program) typeOf(rel, name string) types.Type {
	pk := P.pkg(rel)
	if pk == nil {
		return nil
	}
	if o, ok := pk.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// hooksOf are the functions registered with a keeper, by event.
func (c *Check) hooksOf(rel string) map[string][]*ssa.Function {
	r := map[string][]*ssa.Function{}
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/app" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Name() != "AddHook" || fnPkgPath(g) != modPath+"/"+rel {
					continue
				}
				ev := ""
				var hs []*ssa.Function
				for _, a := range ci.Common().Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						ev = constant.StringVal(k.Value)
					}
					if h := hookTarget(a); h != nil {
						if o := c.P.unwrap(h); o != nil {
							h = o
						}
						hs = append(hs, h)
					}
				}
				r[ev] = append(r[ev], hs...)
			}
		}
	}
	return r
}

// listOps gives the list helpers of the repository their meaning on lists with distinct known elements (that they have it
// is rule R06).
func listOps(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
	if ci.Fn == nil || fnPkgPath(ci.Fn) != modPath+"/util" {
		return false, nil
	}
	name := ci.Fn.Name()
	ret := func(vs ...*V) (bool, []Outcome) { return true, []Outcome{{vals: vs, st: st}} }
	elems := func(v *V) ([]*V, bool) {
		v = thaw(stripIface(v))
		switch v.k {
		case KList:
			return v.args, true
		case KNil, KZero:
			return nil, true
		}
		return nil, false
	}
	if name == "MergeStringsSorted" && len(ci.Args) == 2 {
		a, ok1 := elems(x.snap(st, ci.Args[0]))
		b, ok2 := elems(x.snap(st, ci.Args[1]))
		if ok1 && ok2 {
			r := append([]*V{}, a...)
			for _, v := range b {
				if !hasV(a, v) {
					r = append(r, v)
				}
			}
			return ret(List(r...))
		}
		return false, nil
	}
	if len(ci.Args) != 2 || ci.Args[0].k != KAddr {
		return false, nil
	}
	l, ok := elems(x.snap(st, x.load(st, ci.Args[0])))
	item := stripIface(x.snap(st, ci.Args[1]))
	if !ok {
		return false, nil
	}
	has := hasV(l, item)
	switch name {
	case "RemoveStringFast", "RemoveStringPreserveOrder":
		r := []*V{}
		for _, v := range l {
			if v != item {
				r = append(r, v)
			}
		}
		x.store(st, ci.Args[0], List(r...))
		return ret(Bool(has))
	case "AddStringSorted", "AddStringOntoEnd":
		if !has {
			x.store(st, ci.Args[0], List(append(append([]*V{}, l...), item)...))
		}
		return ret(Bool(!has))
	}
	return false, nil
}

func hasV(l []*V, v *V) bool {
	for _, w := range l {
		if w == v {
			return true
		}
	}
	return false
}

// sameSet: the value is a list of exactly the elements, in any order.
func sameSet(v *V, es ...*V) bool {
	v = stripIface(v)
	if v.k == KNil || v.k == KZero {
		return len(es) == 0
	}
	if v.k != KList || len(v.args) != len(es) {
		return false
	}
	for _, e := range es {
		if !hasV(v.args, e) {
			return false
		}
	}
	return true
}

// networkOps are the operations that may change the links and the totals of the referral structure.
var networkOps = []string{"AppendChild", "AddTopLevelAccount", "Compress", "OnBalanceChanged", "SetActive", "AffirmTransition", "Banish", "ComeBack"}

func ruleNetworkLinks(c *Check) {
	m := c.refMachine()
	if m == nil {
		return
	}
	k, ctx, acc, parent := Sym("k"), Sym("ctx"), Sym("acc"), Sym("parent")
	a1, a2, a3 := Sym("other1"), Sym("other2"), Sym("other3")
	names := map[*V]bool{acc: true, parent: true, a1: true, a2: true, a3: true}
	empty := Str("")
	distinct := func(a *V) (bool, bool) {
		if a.is("eq") && (names[a.args[0]] || a.args[0] == empty) && (names[a.args[1]] || a.args[1] == empty) && a.args[0] != a.args[1] {
			return false, true
		}
		return false, false
	}
	type F map[string]*V
	rec := func(r *V, fs F) *V {
		ks := []string{}
		for n := range fs {
			ks = append(ks, n)
		}
		sort.Strings(ks)
		for _, n := range ks {
			r = update(r, m.sel(n), fs[n])
		}
		return r
	}
	total := 0
	run := func(what string, f *ssa.Function, args []*V, begin map[*V]F, hyp func(a *V) (bool, bool), want func(p *Path) map[*V]F) {
		if f == nil {
			return
		}
		m.init = map[*V]*V{}
		for a, fs := range begin {
			m.init[a] = rec(recSym(a), fs)
		}
		o := m.opts(func(a *V) (bool, bool) {
			if hyp != nil {
				if v, ok := hyp(a); ok {
					return v, ok
				}
			}
			return distinct(a)
		})
		base := o.onCall
		o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if ok, r := base(x, ci, st); ok {
				return ok, r
			}
			return listOps(x, ci, st)
		}
		seen := 0
		for _, p := range c.paths(f, args, o) {
			if !p.ok() {
				continue
			}
			w := want(p)
			if w == nil {
				continue
			}
			seen++
			got := map[*V]*change{}
			for _, ch := range m.changes(p) {
				got[ch.acc] = ch
			}
			var accs []*V
			for a := range w {
				accs = append(accs, a)
			}
			for a := range got {
				if w[a] == nil {
					accs = append(accs, a)
				}
			}
			sort.Slice(accs, func(i, j int) bool { return accs[i].id < accs[j].id })
			for _, a := range accs {
				bad := ""
				for _, fld := range []string{"Referrer", "Referrals", "ActiveReferrals", "Active", "Banished", "Transition"} {
					old := m.field(m.before(p, a), fld)
					g := old
					if ch := got[a]; ch != nil {
						g = m.field(ch.nv, fld)
					}
					x, asked := w[a][fld]
					switch {
					case !asked:
						if g != old && !(old.k == KList && sameSet(g, old.args...)) {
							bad = fld + " must not change, becomes " + g.str(7)
						}
					case x.k == KList || x.k == KNil:
						if !sameSet(g, x.args...) {
							bad = fld + " becomes " + g.str(7) + " instead of " + x.String()
						}
					case g != x && !(isZeroOf(g) && isZeroOf(x)):
						if v, ok := p.known(g); ok && Bool(v) == x {
							continue
						}
						bad = fld + " becomes " + g.str(7) + " instead of " + x.String()
					}
				}
				c.oblige(bad == "", what+": referrers and referrals, activity and banishment agree afterwards", p.exit(c)+" "+a.String(), bad)
				if ch := got[a]; ch != nil {
					c.oblige(ch.saved, what+": the changed records are stored", p.exit(c)+" "+a.String())
				}
			}
		}
		total += seen
		c.oblige(seen > 0, what+": a path that succeeds is found", what)
	}
	all := func(w map[*V]F) func(*Path) map[*V]F { return func(*Path) map[*V]F { return w } }
	none := List()
	open := func(a *V) (bool, bool) {
		if strings.HasSuffix(a.op, ".RegistrationClosed") && a.hasOp("call:") {
			return false, true
		}
		return false, false
	}
	m2 := func(n string) *ssa.Function { return c.method(refK, "Keeper", n) }

	run("a new account", m2("AppendChild"), []*V{k, ctx, parent, acc},
		map[*V]F{parent: {"Referrer": empty, "Referrals": List(a1), "ActiveReferrals": List(a1)}}, open,
		all(map[*V]F{
			parent: {"Referrals": List(a1, acc)},
			acc:    {"Referrer": parent, "Referrals": none, "ActiveReferrals": none, "Active": Bool(false), "Banished": Bool(false), "Transition": empty},
		}))
	run("a new top account", m2("AddTopLevelAccount"), []*V{k, ctx, acc}, nil, nil,
		all(map[*V]F{acc: {"Referrer": empty, "Referrals": none, "ActiveReferrals": none, "Active": Bool(false), "Banished": Bool(false), "Transition": empty}}))
	run("compression", m2("Compress"), []*V{k, ctx, acc},
		map[*V]F{acc: {"Referrer": parent, "Referrals": List(a1, a2), "ActiveReferrals": List(a1)}, parent: {"Referrer": empty, "Referrals": List(a3, acc), "ActiveReferrals": List(a3)}, a1: {"Referrer": acc}, a2: {"Referrer": acc}}, nil,
		all(map[*V]F{
			acc:    {"Referrals": none, "ActiveReferrals": none},
			parent: {"Referrals": List(a3, acc, a1, a2), "ActiveReferrals": List(a3, a1)},
			a1:     {"Referrer": parent}, a2: {"Referrer": parent},
		}))
	for i, l := range [][]*V{{acc, a1, a2}, {a1, acc, a2}, {a1, a2, acc}, {acc}} {
		rest := []*V{}
		for _, v := range l {
			if v != acc {
				rest = append(rest, v)
			}
		}
		n := itoa(i)
		run("banishing", m2("Banish"), []*V{k, ctx, acc},
			map[*V]F{acc: {"Referrer": parent, "Referrals": none}, parent: {"Referrer": empty, "Referrals": List(l...)}}, nil,
			all(map[*V]F{acc: {"Banished": Bool(true)}, parent: {"Referrals": List(rest...)}}))
		for _, on := range []bool{true, false} {
			la, lr := l, rest
			if on {
				la, lr = rest, l
			}
			run("activity", m2("SetActive"), []*V{k, ctx, acc, Bool(on), Sym("check")},
				map[*V]F{acc: {"Referrer": parent, "Active": Bool(!on)}, parent: {"Referrer": a3, "Referrals": List(l...), "ActiveReferrals": List(la...)}, a3: {"Referrer": empty, "ActiveReferrals": List(parent)}}, nil,
				all(map[*V]F{acc: {"Active": Bool(on)}, parent: {"ActiveReferrals": List(lr...)}, a3: {}}))
			from := map[*V]F{acc: {"Referrer": a3, "Active": Bool(on), "Transition": parent}, a3: {"Referrer": empty, "Referrals": List(l...), "ActiveReferrals": List(rest...)}, parent: {"Referrer": empty, "Referrals": List(Sym("other4")), "ActiveReferrals": List(Sym("other4"))}}
			to := map[*V]F{acc: {"Referrer": parent, "Transition": empty}, a3: {"Referrals": List(rest...)}, parent: {"Referrals": List(Sym("other4"), acc)}}
			if on {
				o5 := Sym("other5")
				from[a3]["ActiveReferrals"] = List(append(append([]*V{}, l...), o5)...)
				to[a3]["ActiveReferrals"] = List(append(append([]*V{}, rest...), o5)...)
				to[parent]["ActiveReferrals"] = List(Sym("other4"), acc)
			}
			run("transition", m2("AffirmTransition"), []*V{k, ctx, acc}, from, open, all(to))
		}
		_ = n
	}
	back := map[*V]F{acc: {"Referrer": parent, "Banished": Bool(true), "Active": Bool(false), "Referrals": none, "ActiveReferrals": none}, parent: {"Referrer": empty, "Referrals": List(a1)}}
	returned := map[*V]F{acc: {"Referrer": parent, "Banished": Bool(false)}, parent: {"Referrals": List(a1, acc)}}
	run("coming back", m2("ComeBack"), []*V{k, ctx, acc}, back, open, all(returned))
	skipped := map[*V]F{acc: back[acc], parent: {"Referrer": a2, "Referrals": List(a1)}, a2: {"Referrer": empty, "Referrals": List(parent)}}
	second := func(a *V) (bool, bool) {
		if strings.HasSuffix(a.op, ".RegistrationClosed") && a.hasOp("call:") {
			return mention(a.args[0], recSym(parent)), true
		}
		return false, false
	}
	passed := map[*V]F{acc: {"Referrer": a2, "Banished": Bool(false)}, a2: {"Referrals": List(parent, acc)}, parent: {}}
	run("coming back above a closed referrer", m2("ComeBack"), []*V{k, ctx, acc}, skipped, second, all(passed))
	// a delegation brings an account back; the balance of the banished never counts for others
	for i, b := range []map[*V]F{back, skipped} {
		h, w := open, returned
		if i == 1 {
			h, w = second, passed
		}
		run("a changed balance", m2("OnBalanceChanged"), []*V{k, ctx, acc}, b, h, func(p *Path) map[*V]F {
			if len(m.changes(p)) == 0 {
				return map[*V]F{}
			}
			for _, ch := range m.changes(p) {
				if ch.acc == acc {
					if b, ok := boolOf(m.field(ch.nv, "Banished")); ok && b {
						return map[*V]F{acc: {}}
					}
				}
			}
			return w
		})
	}
	c.oblige(total >= 25, "enough operations on the links are analysed", refK, total)
	m.init = map[*V]*V{}

	// nothing else writes them
	fields := map[string]bool{}
	for _, f := range []string{"Referrer", "Referrals", "ActiveReferrals", "Active", "Banished", "Coins", "Delegated", "ActiveRefCounts"} {
		fields[f] = true
	}
	allowed := map[*ssa.Function]bool{}
	for _, n := range networkOps {
		if f := m2(n); f != nil {
			allowed[f] = true
		}
	}
	way := c.P.reachAvoiding(allowed)
	writers := 0
	for _, f := range c.P.Funcs {
		if isAppPkg(f) || strings.HasPrefix(fnPkgPath(f), modPath+"/"+refT) {
			continue
		}
		w := writesField(f, m.info, fields)
		if w == "" {
			continue
		}
		writers++
		_, there := way[f]
		c.oblige(!there, "links and totals of the referral structure are changed by its operations only", shortFn(f)+" writes "+w, wayTo(way, f))
	}
	c.oblige(writers >= 8, "the functions that write links and totals are found", refK, writers)
}

func isZeroOf(v *V) bool {
	if v.k == KZero || v.k == KNil {
		return true
	}
	if b, ok := boolOf(v); ok {
		return !b
	}
	if s, ok := strOf(v); ok {
		return s == ""
	}
	return false
}

// writesField: the function stores to (or hands out the address of) one of the fields of the struct type.
func writesField(f *ssa.Function, t types.Type, fields map[string]bool) string {
	root := func(a ssa.Value) string {
		for d := 0; d < 8; d++ {
			switch v := a.(type) {
			case *ssa.FieldAddr:
				if st := deref(v.X.Type()); types.Identical(st, t) {
					return st.Underlying().(*types.Struct).Field(v.Field).Name()
				}
				a = v.X
			case *ssa.IndexAddr:
				a = v.X
			case *ssa.UnOp:
				a = v.X
			case *ssa.Slice:
				a = v.X
			default:
				return ""
			}
		}
		return ""
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if n := root(in.Addr); fields[n] {
					return n
				}
			case ssa.CallInstruction:
				for _, a := range in.Common().Args {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						if n := root(fa); fields[n] {
							return n
						}
					}
				}
			}
		}
	}
	return ""
}

// hookName is the event the application registers the method for.
func (c *Check) hookName(keeper, rel, typ, name string) *V {
	f := c.method(rel, typ, name)
	r := ""
	n := 0
	for ev, fs := range c.hooksOf(keeper) {
		for _, g := range fs {
			if g == f && f != nil {
				r = ev
				n++
			}
		}
	}
	c.oblige(n == 1 && r != "", "the handler is registered for one event", rel+"."+name, n)
	return Str(r)
}

// never: no path of the operation succeeds, or changes anything before it fails.
func (c *Check) never(rule, when string, f *ssa.Function, args []*V, o pathOpts) {
	if f == nil {
		return
	}
	bad := ""
	n := 0
	for _, p := range c.paths(f, args, o) {
		if p.O.panic {
			continue
		}
		n++
		if p.ok() {
			bad = "succeeds; " + p.exit(c)
			break
		}
		for _, e := range p.Ev {
			switch {
			case e.Kind == "Set" || e.Kind == "Delete" || e.Kind == "commit":
				bad = "writes before it fails; " + p.exit(c)
			case e.Kind == "rec" && p.O.st.ev["s:"+itoa(e.Args[0].id)] != nil:
				bad = "changes a record before it fails; " + p.exit(c)
			case e.Kind == "call" && e.Fn != nil && !c.P.readOnly(e.Fn):
				bad = "calls " + shortFn(e.Fn) + " before it fails; " + p.exit(c)
			}
		}
	}
	c.oblige(bad == "" && n > 0, rule, shortFn(f)+" when "+when, bad)
}

func ruleTransitions(c *Check) {
	m := c.refMachine()
	req, aff, can := c.method(refK, "Keeper", "RequestTransition"), c.method(refK, "Keeper", "AffirmTransition"), c.method(refK, "Keeper", "CancelTransition")
	hReq, hRes := c.method(refK, "MsgServer", "RequestTransition"), c.method(refK, "MsgServer", "ResolveTransition")
	timeout := c.method(refK, "Keeper", "PerformTransitionTimeout")
	if m == nil || req == nil || aff == nil || can == nil || hReq == nil || hRes == nil || timeout == nil {
		return
	}
	k, ctx, acc, to, up, x1, x2 := Sym("k"), Sym("ctx"), Sym("acc"), Sym("to"), Sym("up"), Sym("above1"), Sym("above2")
	names := map[*V]bool{acc: true, to: true, up: true, x1: true, x2: true, Str(""): true}
	type F map[string]*V
	opts := func(begin map[*V]F, gone *V, hyp func(a *V) (bool, bool)) pathOpts {
		m.init = map[*V]*V{}
		for a, fs := range begin {
			r := recSym(a)
			for _, n := range []string{"Referrer", "Transition", "Referrals", "ActiveReferrals"} {
				if fs[n] != nil {
					r = update(r, m.sel(n), fs[n])
				}
			}
			m.init[a] = r
		}
		o := m.opts(func(a *V) (bool, bool) {
			if hyp != nil {
				if v, ok := hyp(a); ok {
					return v, ok
				}
			}
			if a.is("eq") && names[a.args[0]] && names[a.args[1]] && a.args[0] != a.args[1] {
				return false, true
			}
			if strings.HasSuffix(a.op, ".RegistrationClosed") && a.hasOp("call:") {
				return false, true
			}
			return false, false
		})
		base := o.onCall
		o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if gone != nil && (ci.Fn == m.kget && stripIface(x.snap(st, ci.Args[2])) == gone) {
				return true, []Outcome{{vals: []*V{Zero(m.info), rawApp("err:missing", gone)}, st: st}}
			}
			if paysFrom(ci) {
				// the payment changes the balance and so the record
				for _, a := range ci.Args {
					if a == acc {
						m.put(st, acc, rawApp("paid", m.current(st, acc, false)), false)
					}
				}
			}
			if ok, r := base(x, ci, st); ok {
				return ok, r
			}
			return listOps(x, ci, st)
		}
		o.watchI = func(ci *CallInfo) bool { return inPkg(schedK)(ci) || paysFrom(ci) }
		return o
	}
	healthy := func() map[*V]F {
		return map[*V]F{acc: {"Referrer": up, "Transition": Str("")}, up: {"Referrer": Str(""), "Referrals": List(acc), "ActiveReferrals": List(acc)}, to: {"Referrer": x1}, x1: {"Referrer": x2}, x2: {"Referrer": Str("")}}
	}
	with := func(a *V, fld string, v *V) map[*V]F {
		h := healthy()
		h[a][fld] = v
		return h
	}
	closedTo := func(a *V) (bool, bool) {
		if strings.HasSuffix(a.op, ".RegistrationClosed") && a.hasOp("call:") && mention(a.args[0], recSym(to)) {
			return true, true
		}
		return false, false
	}
	rq := []*V{k, ctx, acc, to}
	rule := "a transition that is not allowed is refused"
	c.never(rule, "the destination is the account itself", req, []*V{k, ctx, acc, acc}, opts(healthy(), nil, nil))
	c.never(rule, "a transition is pending", req, rq, opts(with(acc, "Transition", x1), nil, nil))
	c.never(rule, "the destination is the referrer already", req, []*V{k, ctx, acc, up}, opts(healthy(), nil, nil))
	c.never(rule, "the destination is closed for registration", req, rq, opts(healthy(), nil, closedTo))
	c.never(rule, "the account is unknown", req, rq, opts(healthy(), acc, nil))
	c.never(rule, "the destination is unknown", req, rq, opts(healthy(), to, nil))
	for _, fr := range []bool{true, false} {
		f, args := req, rq
		h := func(a *V, fld string, v *V) map[*V]F { return with(a, fld, v) }
		if !fr {
			f, args = aff, []*V{k, ctx, acc}
			h = func(a *V, fld string, v *V) map[*V]F {
				b := with(a, fld, v)
				if fld != "Transition" {
					b[acc]["Transition"] = to
				}
				return b
			}
		}
		c.never(rule, "the destination is a referral of the account", f, args, opts(h(to, "Referrer", acc), nil, nil))
		c.never(rule, "the destination is a second line referral", f, args, opts(h(x1, "Referrer", acc), nil, nil))
		c.never(rule, "the destination is a third line referral", f, args, opts(h(x2, "Referrer", acc), nil, nil))
		if !fr {
			c.never(rule, "nothing was requested", f, args, opts(healthy(), nil, func(a *V) (bool, bool) {
				if a.is("isnil") && a.args[0].is("badaddr") && a.args[0].args[0] == Str("") {
					return false, true
				}
				return false, false
			}))
			c.never(rule, "the destination has become the referrer", f, args, opts(h(acc, "Transition", up), nil, nil))
			c.never(rule, "the destination has become closed", f, args, opts(h(acc, "Transition", to), nil, closedTo))
			c.never(rule, "the destination has become the account itself", f, args, opts(h(acc, "Transition", acc), nil, nil))
			c.never(rule, "the destination is gone", f, args, opts(h(acc, "Transition", to), to, nil))
		}
	}
	ev := c.hookName(schedK, refK, "Keeper", "PerformTransitionTimeout")
	// a request
	seen := 0
	for _, p := range c.paths(req, rq, opts(healthy(), nil, nil)) {
		paid, amount := 0, (*V)(nil)
		for _, e := range p.Ev {
			if e.Kind == "call" && e.Fn != nil && paysFn(e.Fn) {
				paid++
				amount = e.Args[len(e.Args)-1]
			}
		}
		if !p.ok() {
			continue
		}
		seen++
		price := m.price(p)
		free := price != nil && func() bool { v, ok := p.known(mkLt(Int(0), price)); return ok && !v }()
		if paid == 0 {
			c.oblige(free, "a transition is paid for when it is requested", p.exit(c))
		} else {
			c.oblige(paid == 1 && price != nil && coinLin(amount).eq(Lin{rawApp("unitcoin", Str("uartr"), price): 1}), "a transition costs its price once", p.exit(c), paid, " ", amount)
		}
		chs := m.changes(p)
		ok := len(chs) == 1 && chs[0].acc == acc && chs[0].saved
		bad := ""
		if ok {
			now := m.before(p, acc)
			if paid > 0 {
				now = rawApp("paid", now)
			}
			bad = m.differs(chs[0].nv, now, "Transition", to)
		}
		c.oblige(ok && bad == "", "a request is recorded and changes nothing else", p.exit(c), bad)
		ss := schedCalls(p.Ev)
		good := len(ss) == 1 && ss[0].Fn.Name() == "ScheduleTask" && ss[0].Args[3] == ev && unbytes(ss[0].Args[4]) == acc && onDay(ss[0].Args[2])
		c.oblige(good, "a request runs out in a day", p.exit(c), len(ss), argStr(ss))
	}
	c.oblige(seen >= 2, "paths of a successful request are found", shortFn(req), seen)
	failedPay := opts(healthy(), nil, func(a *V) (bool, bool) {
		if a.is("isnil") && strings.Contains(a.args[0].op, "SendCoinsFromAccountToModule") {
			return false, true
		}
		return false, false
	})
	for _, p := range c.paths(req, rq, failedPay) {
		paid := p.has(func(e Ev) bool { return e.Kind == "call" && e.Fn != nil && paysFn(e.Fn) })
		c.oblige(!(paid && p.ok()), "a transition that cannot be paid for is refused", p.exit(c))
	}
	// cancelling
	for _, to0 := range []bool{true, false} {
		n := 0
		for _, p := range c.paths(can, []*V{k, ctx, acc, Bool(to0)}, opts(with(acc, "Transition", to), nil, nil)) {
			if !p.ok() {
				continue
			}
			n++
			chs := m.changes(p)
			ok := len(chs) == 1 && chs[0].acc == acc && chs[0].saved && m.differs(chs[0].nv, m.before(p, acc), "Transition", Str("")) == ""
			c.oblige(ok, "cancelling takes the request away and changes nothing else", p.exit(c))
			if !to0 {
				c.oblige(c.dropsTimeout(p, ev, acc), "a request that is resolved takes its timeout with it", shortFn(can))
			}
		}
		c.oblige(n > 0, "a path of cancelling is found", shortFn(can))
	}
	n := 0
	for _, p := range c.paths(aff, []*V{k, ctx, acc}, opts(with(acc, "Transition", to), nil, nil)) {
		if p.ok() {
			n++
			c.oblige(c.dropsTimeout(p, ev, acc), "a request that is resolved takes its timeout with it", shortFn(aff))
			ok := false
			for _, ch := range m.changes(p) {
				if ch.acc == acc {
					ok = ch.saved && m.field(ch.nv, "Referrer") == to && m.field(ch.nv, "Transition") == Str("")
				}
			}
			c.oblige(ok, "an affirmed request is carried out and is pending no longer", p.exit(c))
		}
	}
	c.oblige(n > 0, "a path of affirming is found", shortFn(aff))
	c.handsOver("the timeout cancels the request of its account", timeout, []*V{k, ctx, Sym("data"), Sym("time")}, can, func(a []*V) bool {
		return unbytes(a[2]) == Sym("data") && a[3] == Bool(true)
	})
	// who decides
	msg := Sym("msg")
	subj, signer, decline := c.msgPath(hRes, msg, "Subject"), c.msgPath(hRes, msg, "Signer"), c.msgPath(hRes, msg, "Decline")
	rs, rd := c.msgPath(hReq, msg, "Subject"), c.msgPath(hReq, msg, "Destination")
	if subj == nil || signer == nil || decline == nil || rs == nil || rd == nil {
		return
	}
	m.init = map[*V]*V{}
	res := func(same, yes bool) []*Path {
		o := m.opts(func(a *V) (bool, bool) {
			if a.is("eq") && hasV(a.args, signer) && hasV(a.args, m.field(recSym(subj), "Referrer")) {
				return same, true
			}
			if a == decline {
				return !yes, true
			}
			return false, false
		})
		o.watch = set(aff, can)
		o.fails = true
		return c.paths(hRes, []*V{Sym("server"), ctx, msg}, o)
	}
	for _, yes := range []bool{true, false} {
		for _, p := range res(false, yes) {
			c.oblige(!p.ok() && !p.has(func(e Ev) bool { return calls(aff)(e) || calls(can)(e) }), "only the current referrer resolves a request", p.exit(c))
		}
		done := 0
		for _, p := range res(true, yes) {
			na, nc := 0, 0
			for _, e := range p.Ev {
				if calls(aff)(e) && stripIface(e.Args[2]) == subj {
					na++
				}
				if calls(can)(e) && stripIface(e.Args[2]) == subj && e.Args[3] == Bool(false) {
					nc++
				}
			}
			if p.ok() {
				done++
				c.oblige(yes && na == 1 && nc == 0 || !yes && na == 0 && nc == 1, "a request is resolved as the referrer says", p.exit(c), na, nc)
			}
			c.oblige(!(yes && nc > 0 || !yes && na > 0), "a request is resolved as the referrer says", p.exit(c), na, nc)
		}
		c.oblige(done > 0, "a path that resolves is found", shortFn(hRes))
	}
	c.handsOver("a request concerns the account that asks", hReq, []*V{Sym("server"), ctx, msg}, req, func(a []*V) bool { return a[2] == rs && a[3] == rd })
	// nothing else writes the request
	way := c.P.reachAvoiding(set(req, aff, can))
	w := 0
	for _, f := range c.P.Funcs {
		if isAppPkg(f) || strings.HasPrefix(fnPkgPath(f), modPath+"/"+refT) || writesField(f, m.info, map[string]bool{"Transition": true}) == "" {
			continue
		}
		w++
		_, there := way[f]
		c.oblige(!there, "requests are made and resolved by the operations on them only", shortFn(f), wayTo(way, f))
	}
	c.oblige(w >= 3, "the functions that write requests are found", refK, w)
}

// differs tells in what a record is not another one with one field replaced.
func (m *recMachine) differs(nv, old *V, field string, v *V) string {
	bad := ""
	st := m.info.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		want := m.field(old, n)
		if n == field {
			want = v
		}
		if m.field(nv, n) != want {
			bad += n + "=" + clip(m.field(nv, n).str(6), 80) + " "
		}
	}
	return bad
}

// dropsTimeout: the path removes the scheduled timeout of the account.
func (c *Check) dropsTimeout(p *Path, ev, acc *V) bool {
	for _, e := range schedCalls(p.Ev) {
		if e.Fn.Name() == "Delete" && e.Args[3] == ev && unbytes(e.Args[4]) == acc {
			return true
		}
	}
	return false
}

// onDay: a day from the time of the block.
func onDay(t *V) bool {
	t = stripIface(t)
	return t.is("call:(time.Time).Add") && t.args[0].op == "blocktime" && strings.HasSuffix(t.args[1].op, ".OneDay")
}

func paysFrom(ci *CallInfo) bool  { return strings.HasSuffix(ci.Name, ".SendCoinsFromAccountToModule") }
func paysFn(f *ssa.Function) bool { return f.Name() == "SendCoinsFromAccountToModule" }

// price is the parameter a path asks about.
func (m *recMachine) price(p *Path) *V {
	for f := range p.facts() {
		var r *V
		f.mentions(func(y *V) bool {
			if strings.HasPrefix(y.op, "field:") && strings.HasSuffix(y.op, ".TransitionPrice") {
				r = y
			}
			return false
		})
		if r != nil {
			return r
		}
	}
	return nil
}

// handsOver: every path that succeeds calls the operation once with the arguments, and fails if it does.
func (c *Check) handsOver(rule string, f *ssa.Function, args []*V, op *ssa.Function, good func(a []*V) bool) {
	o := pathOpts{watch: set(op), fails: true, hyp: wellCoded}
	n := 0
	for _, p := range c.paths(f, args, o) {
		k := 0
		ok := true
		for _, e := range p.Ev {
			if calls(op)(e) {
				k++
				ok = ok && good(e.Args)
			}
		}
		if !p.O.panic && p.Ok {
			n++
			c.oblige(k == 1 && ok && p.O.st.ev["failed"] == nil, rule, shortFn(f), k, p.exit(c))
		}
	}
	c.oblige(n > 0, rule, shortFn(f), "no path succeeds")
}

func argStr(es []Ev) string {
	s := ""
	for _, e := range es {
		for _, a := range e.Args {
			s += a.String() + " | "
		}
	}
	return s
}
