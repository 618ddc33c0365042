package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const nodK = "x/noding/keeper"

func init() {
	register("R05", ruleStatuses)
	register("R07", ruleValidatorFees)
}

// statusFns are the functions about statuses, found by signature.
type statusFns struct {
	check    *ssa.Function // (status, record, updates) -> (result, error)
	setTo    *ssa.Function // of the keeper: (ctx, *record, status, account)
	reqs     map[int64]*ssa.Function
	min, max int64
	gone     int64 // the deprecated status
	first    int64 // the first that is indexed
	all      []int64
}

func (c *Check) statusFns(m *recMachine) *statusFns {
	s := &statusFns{reqs: map[int64]*ssa.Function{}}
	stT := c.P.typeOf(refT, "Status")
	if stT == nil {
		c.oblige(false, "anchor", "Status", "not found")
		return nil
	}
	owner := m.upd.Signature.Recv().Type()
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+refK || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		ps, rs := f.Signature.Params(), f.Signature.Results()
		if f.Signature.Recv() == nil && ps.Len() == 3 && rs.Len() == 2 && types.Identical(ps.At(0).Type(), stT) && types.Identical(ps.At(1).Type(), m.info) && types.Identical(ps.At(2).Type(), owner) {
			s.check = f
		}
		if f.Signature.Recv() != nil && ps.Len() == 4 && rs.Len() == 0 && isInfoPtr(ps.At(1).Type(), m.info) && types.Identical(ps.At(2).Type(), stT) {
			s.setTo = f
		}
	}
	// the table of requirements
	if pk := c.P.pkg(refK); pk != nil {
		for _, mem := range pk.Members {
			f, ok := mem.(*ssa.Function)
			if !ok || !strings.HasPrefix(f.Name(), "init") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					mu, ok := in.(*ssa.MapUpdate)
					if !ok || !types.Identical(mu.Key.Type(), stT) {
						continue
					}
					k, ok1 := mu.Key.(*ssa.Const)
					var v *ssa.Function
					switch x := mu.Value.(type) {
					case *ssa.Function:
						v = x
					case *ssa.MakeClosure:
						v, _ = x.Fn.(*ssa.Function)
					case *ssa.ChangeType:
						v, _ = x.X.(*ssa.Function)
					}
					if ok1 && v != nil {
						n, _ := constant.Int64Val(k.Value)
						c.oblige(s.reqs[n] == nil, "a status has one entry of requirements", itoa(int(n)))
						s.reqs[n] = v
					}
				}
			}
		}
	}
	num := func(rel, n string) int64 {
		var r int64
		ok := false
		if pk := c.P.pkg(rel); pk != nil {
			if k, is := pk.Pkg.Scope().Lookup(n).(*types.Const); is {
				r, ok = constant.Int64Val(constant.ToInt(k.Val()))
			}
		}
		c.oblige(ok, "anchor", n, r)
		return r
	}
	s.min, s.max, s.gone = num(refT, "MinimumStatus"), num(refT, "MaximumStatus"), num(refT, "HeroDeprecatedStatus")
	s.first = num(refK, "minIndexedStatus")
	for n := s.min; n <= s.max; n++ {
		if n != s.gone {
			s.all = append(s.all, n)
		}
	}
	if !c.oblige(s.check != nil && s.setTo != nil && len(s.all) >= 2, "the functions about statuses are found", refK, s.check, s.setTo, len(s.reqs)) {
		return nil
	}
	return s
}

func (s *statusFns) next(n int64) int64 {
	for n++; n == s.gone; n++ {
	}
	return n
}

func (s *statusFns) prev(n int64) int64 {
	for n--; n == s.gone; n-- {
	}
	return n
}

func ruleStatuses(c *Check) {
	m := c.refMachine()
	if m == nil {
		return
	}
	s := c.statusFns(m)
	if s == nil {
		return
	}
	k, ctx, acc := Sym("k"), Sym("ctx"), Sym("acc")
	down := c.hookName(schedK, refK, "Keeper", "PerformDowngrade")
	upEv := c.hookName(refK, nodK, "Keeper", "OnStatusUpdate")
	isTime := func(v *V) bool { return v.op == "blocktime" }

	// the table
	for _, n := range s.all {
		c.oblige(s.reqs[n] != nil, "every status has its requirements", itoa(int(n)))
	}
	// the index
	for a := int64(0); a <= s.max; a++ {
		for b := int64(0); b <= s.max; b++ {
			target := rawApp("alloc", Sym("target"))
			st := newState()
			st.mem[target] = update(Sym("record"), m.sel("Status"), Int(a))
			n := 0
			for _, p := range c.paths(s.setTo, []*V{k, ctx, Addr(target), Int(b), acc}, pathOpts{st: st, hyp: wellCoded}) {
				if !p.ok() {
					continue
				}
				n++
				bad := ""
				has := map[int64]bool{}
				if a >= s.first {
					has[a] = true
				}
				for _, e := range p.Ev {
					if e.Kind != "Set" && e.Kind != "Delete" {
						continue
					}
					v, ok := intOf(project(e.Args[0], Int(0)))
					if !ok || !mention(e.Args[0], acc) || e.Store == "" || e.Store == "referral" {
						bad = "an entry that is not of a status and the account: " + e.Args[0].str(6)
					}
					if e.Kind == "Set" {
						has[v] = true
					} else {
						delete(has, v)
					}
				}
				if len(has) > 1 || (b >= s.first) != has[b] || len(has) == 1 && !has[b] {
					bad = fmt.Sprint("the index holds ", has)
				}
				if got := fieldVal(p.X.snap(p.O.st, Addr(target)), m.info, "Status"); got != Int(b) {
					bad = "the status becomes " + got.str(4)
				}
				c.oblige(bad == "", "the index holds each account exactly under its status", fmt.Sprint(a, " to ", b), bad)
			}
			c.oblige(n > 0, "reachable", shortFn(s.setTo), "")
		}
	}
	c.statusWriters(m, s)

	// the requirements are asked of the record as it is after the update
	met := func(n int64) *V { return rawApp("met", Int(n)) }
	type asked struct{ at, rec *V }
	setTo := func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
		t := ci.Args[2]
		cur := x.load(st, t)
		to := x.snap(st, ci.Args[3])
		x.store(st, t, update(cur, m.sel("Status"), to))
		addTrace(st, Ev{Kind: "status", Args: []*V{fieldVal(x.snap(st, cur), m.info, "Status"), to, stripIface(x.snap(st, ci.Args[4]))}, At: ci.Instr})
		return true, []Outcome{{vals: nil, st: st}}
	}
	resT := c.P.typeOf(refT, "StatusCheckResult")
	if resT == nil {
		c.oblige(false, "anchor", "StatusCheckResult", "not found")
		return
	}
	overall := func(v *V) *V {
		st := resT.Underlying().(*types.Struct)
		r := Sym("result")
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Overall" {
				r = update(r, FieldSel(resT, i), v)
			}
		}
		return r
	}
	runUpd := func(st0 int64, pending *V, check bool, cbFails, checkFails, setFails bool) []*Path {
		begin := update(update(recSym(acc), m.sel("Status"), Int(st0)), m.sel("StatusDowngradeAt"), pending)
		o := pathOpts{inline: func(f *ssa.Function) bool {
			return fnPkgPath(f) == modPath+"/"+refK
		}, unroll: 16, limit: 2000, outLimit: 2000, watchI: inPkg(schedK), announced: true}
		o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			switch {
			case ci.Fn == m.get:
				return true, []Outcome{{vals: []*V{begin, vNil}, st: st}}
			case ci.Fn == m.set:
				addTrace(st, Ev{Kind: "rec", Args: []*V{stripIface(x.snap(st, ci.Args[1])), begin, x.snap(st, ci.Args[2]), Bool(check)}, At: ci.Instr})
				if setFails {
					return true, []Outcome{{vals: []*V{rawApp("err:set", ci.Site)}, st: st}}
				}
				return true, []Outcome{{vals: []*V{vNil}, st: st}}
			case ci.Fn == m.addCb:
				addTrace(st, Ev{Kind: "callback", Args: snapAll(x, st, ci.Args[1:]), At: ci.Instr})
				return true, []Outcome{{vals: nil, st: st}}
			case ci.Fn == s.setTo:
				return setTo(x, ci, st)
			case ci.Fn == s.check:
				n, ok := intOf(x.snap(st, ci.Args[0]))
				rec := x.snap(st, ci.Args[1])
				addTrace(st, Ev{Kind: "asked", Args: []*V{x.snap(st, ci.Args[0]), rec}, At: ci.Instr})
				if checkFails {
					return true, []Outcome{{vals: []*V{Sym("result"), rawApp("err:check", ci.Site)}, st: st}}
				}
				if !ok {
					return false, nil
				}
				return true, []Outcome{{vals: []*V{overall(met(n)), vNil}, st: st}}
			case ci.Fn != nil && ci.Fn.Name() == "Normalize":
				return true, []Outcome{{vals: nil, st: st}}
			case strings.HasPrefix(ci.Name, "dynamic:cb"):
				addTrace(st, Ev{Kind: "changed", At: ci.Instr})
				if cbFails {
					return true, []Outcome{{vals: []*V{rawApp("err:cb", ci.Site)}, st: st}}
				}
				x.store(st, ci.Args[1], update(x.load(st, ci.Args[1]), m.sel("Referrer"), Sym("changed")))
				return true, []Outcome{{vals: []*V{vNil}, st: st}}
			}
			return false, nil
		}
		o.hyp = func(x *Exec, a *V, st *State) (bool, bool) {
			if a.is("isnil") && stripIface(a.args[0]).is("alloc") {
				return false, true
			}
			return wellCoded(x, a, st)
		}
		return c.paths(m.upd, []*V{Sym("updates"), acc, Bool(check), Sym("cb")}, o)
	}
	due := rawApp("alloc", Sym("time of downgrade"))
	for _, st0 := range append([]int64{0, s.gone}, s.all...) {
		reached := map[int64]bool{}
		for _, pending := range []*V{vNil, due} {
			n := 0
			for _, p := range runUpd(st0, pending, true, false, false, false) {
				if p.O.panic || !p.Ok {
					c.oblige(false, "the requirements of a status are looked at without failing", fmt.Sprint("status ", st0), p.exit(c))
					continue
				}
				n++
				what := fmt.Sprint("status ", st0, ", downgrade pending: ", pending != vNil)
				var rec *V
				recs, told, changed := 0, 0, 0
				for _, e := range p.Ev {
					switch e.Kind {
					case "rec":
						recs++
						rec = e.Args[2]
						if e.Args[0] != acc {
							recs = 99
						}
					case "callback":
						if e.Args[0] == upEv && e.Args[1] == acc {
							told++
						} else {
							told = 99
						}
					case "changed":
						changed++
					case "asked":
						if m.field(e.Args[1], "Referrer") != Sym("changed") {
							changed = 99
						}
					}
				}
				if !c.oblige(recs == 1 && changed == 1 && m.field(rec, "Referrer") == Sym("changed"), "an update sets the changed record once and judges it as it is changed", what, recs, changed) {
					continue
				}
				k0 := func(n int64) (bool, bool) { return p.known(met(n)) }
				cur := st0
				if st0 == s.gone {
					cur = s.next(st0)
				}
				unknown := ""
				ok0, kn := k0(cur)
				if !kn {
					unknown = itoa(int(cur))
				}
				want := cur
				if ok0 {
					for want != s.max {
						v, kn := k0(s.next(want))
						if !kn {
							unknown = itoa(int(s.next(want)))
						}
						if !kn || !v {
							break
						}
						want = s.next(want)
					}
				}
				c.oblige(unknown == "", "the requirements up to the first status not reached are looked at", what, unknown)
				got := m.field(rec, "Status")
				if ok0 {
					reached[want] = true
				}
				c.oblige(got == Int(want), "the status is the highest one up to which all requirements are met", what, got.str(4), " due ", want)
				c.oblige((told > 0) == (want != st0) && told < 99, "a change of status is announced", what, told)
				bad := c.statusEvents(p, acc, st0, want)
				c.oblige(bad == "", "the event of a change of status tells the status before and after", what, bad)
				var sched []Ev
				for _, e := range schedCalls(p.Ev) {
					if e.Fn.Name() == "ScheduleTask" {
						sched = append(sched, e)
					}
				}
				at := m.field(rec, "StatusDowngradeAt")
				if wt := c.P.typeOf(refT, "EventStatusWillBeDowngraded"); c.oblige(wt != nil, "anchor", "EventStatusWillBeDowngraded", "") {
					will, not := p.announcements("EventStatusWillBeDowngraded"), p.announcements("EventStatusDowngradeCanceled")
					good := len(will) == len(sched) && (len(not) == 1) == (ok0 && pending != vNil) && len(not) < 2
					for _, e := range will {
						good = good && stripIface(fieldVal(e, wt, "Address")) == acc && taskTime(fieldVal(e, wt, "Time")) == taskTime(at)
					}
					c.oblige(good, "a downgrade ahead is announced, and so is that it is off", what, len(will), len(not))
				}
				switch {
				case ok0:
					c.oblige(len(sched) == 0 && isNilV(at), "a status that is deserved is not due for downgrade", what, at.str(4))
				case pending != vNil:
					c.oblige(len(sched) == 0 && (at == pending || taskTime(at) == taskTime(pending)), "a downgrade that is due stays due", what, at.str(4))
				default:
					good := len(sched) == 1 && sched[0].Args[3] == down && unbytes(sched[0].Args[4]) == acc && taskTime(sched[0].Args[2]) == taskTime(at) && days(taskTime(at)) == 2
					c.oblige(good, "a status that is not deserved is due for downgrade in two days", what, at.str(6), len(sched))
				}
			}
			c.oblige(n > 0, "reachable", shortFn(m.upd), st0)
		}
		for _, n := range s.all {
			if n >= st0 {
				c.oblige(reached[n], "every higher status can be reached", fmt.Sprint("from ", st0, " to ", n), "never")
			}
		}
		for _, p := range runUpd(st0, due, false, false, false, false) {
			var rec *V
			bad := ""
			for _, e := range p.Ev {
				switch e.Kind {
				case "rec":
					rec = e.Args[2]
				case "callback", "status", "asked", "call":
					bad = e.Kind
				}
			}
			c.oblige(p.ok() && rec != nil && bad == "" && m.field(rec, "Status") == Int(st0) && m.field(rec, "Referrer") == Sym("changed"), "without a look at the requirements an update sets the changed record only", fmt.Sprint("status ", st0), bad)
		}
	}
	for f := 0; f < 3; f++ {
		n := 0
		for _, p := range runUpd(s.min, vNil, true, f == 0, f == 1, f == 2) {
			n++
			c.oblige(!p.Ok && !p.O.panic && (f == 2 || !p.has(func(e Ev) bool { return e.Kind == "rec" })), "an update that fails says so and sets nothing", fmt.Sprint("case ", f), p.exit(c))
		}
		c.oblige(n > 0, "reachable", shortFn(m.upd), f)
	}

	// a change of activity that is no import is followed by a look at everyone's requirements
	act := c.method(refK, "Keeper", "SetActive")
	if c.oblige(act != nil, "anchor", "SetActive", "gone") {
		n := 0
		live := c.P.reachable(c.P.txRoots()...)
		for _, f := range c.P.Funcs {
			if f.Synthetic != "" || !live[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok || call.Common().StaticCallee() != act {
						continue
					}
					n++
					as := call.Common().Args
					k, ok := as[len(as)-1].(*ssa.Const)
					_, param := as[len(as)-1].(*ssa.Parameter)
					c.oblige(param || ok && k.Value != nil && constant.BoolVal(k.Value), "a change of activity is followed by a look at the requirements", shortFn(f), "it is not")
				}
			}
		}
		c.oblige(n > 0, "anchor", "calls of SetActive", n)
	}

	// a downgrade
	hd := c.method(refK, "Keeper", "PerformDowngrade")
	for _, st0 := range s.all {
		for i, t := range []struct {
			at   *V
			late bool
		}{{vNil, false}, {due, false}, {due, true}} {
			m.init = map[*V]*V{acc: update(update(recSym(acc), m.sel("Status"), Int(st0)), m.sel("StatusDowngradeAt"), t.at)}
			o := m.opts(func(a *V) (bool, bool) {
				if a.is("isnil") && stripIface(a.args[0]).is("alloc") {
					return false, true
				}
				return reorder(a, isTime, !t.late)
			})
			o.announced = true
			base := o.onCall
			o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
				if ci.Fn == s.setTo {
					return setTo(x, ci, st)
				}
				return base(x, ci, st)
			}
			n := 0
			for _, p := range c.paths(hd, []*V{k, ctx, acc, Sym("time")}, o) {
				if !p.ok() {
					continue
				}
				n++
				what := fmt.Sprint("status ", st0, " case ", i)
				chs := m.changes(p)
				want := st0
				if t.late && t.at != vNil {
					want = s.prev(st0)
				}
				told := p.has(func(e Ev) bool { return e.Kind == "callback" && e.Args[0] == upEv && e.Args[1] == acc })
				bad := c.statusEvents(p, acc, st0, want)
				c.oblige(bad == "", "the event of a change of status tells the status before and after", what, bad)
				if want == st0 {
					ok := true
					for _, ch := range chs {
						ok = ok && ch.acc == acc && m.field(ch.nv, "Status") == Int(st0) && taskTime(m.field(ch.nv, "StatusDowngradeAt")) == taskTime(t.at)
					}
					c.oblige(ok, "a status falls only when its downgrade is due", what, p.exit(c))
					continue
				}
				ok := len(chs) == 1 && chs[0].acc == acc && chs[0].saved && m.field(chs[0].nv, "Status") == Int(want) && isNilV(m.field(chs[0].nv, "StatusDowngradeAt")) && chs[0].check
				c.oblige(ok && told, "a downgrade takes the account one status down", what, p.exit(c), told)
			}
			c.oblige(n > 0, "reachable", shortFn(hd), st0)
		}
	}
	// compression
	cm := c.method(refK, "Keeper", "Compress")
	m.init = map[*V]*V{acc: update(update(update(recSym(acc), m.sel("Referrer"), Sym("parent")), m.sel("Referrals"), List()), m.sel("ActiveReferrals"), List()), Sym("parent"): update(recSym(Sym("parent")), m.sel("Referrer"), Str(""))}
	o := m.opts(nil)
	base := o.onCall
	o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
		if ci.Fn == s.setTo {
			return setTo(x, ci, st)
		}
		if ok, r := base(x, ci, st); ok {
			return ok, r
		}
		return listOps(x, ci, st)
	}
	n := 0
	for _, p := range c.paths(cm, []*V{k, ctx, acc}, o) {
		if !p.ok() {
			continue
		}
		for _, ch := range m.changes(p) {
			if ch.acc == acc {
				n++
				c.oblige(m.field(ch.nv, "Status") == Int(s.min) && p.has(func(e Ev) bool { return e.Kind == "status" && e.Args[1] == Int(s.min) && e.Args[2] == acc }) && p.has(func(e Ev) bool { return e.Kind == "callback" && e.Args[0] == upEv && e.Args[1] == acc }), "a compressed account has the lowest status", p.exit(c))
			}
		}
	}
	c.oblige(n > 0, "reachable", shortFn(cm), "")
	m.init = map[*V]*V{}
	c.requirements(m, s)
}

// days is how many days after the block the time is (0: it is no such time).
func days(t *V) int64 {
	t = stripIface(t)
	if !t.is("call:(time.Time).Add") || t.args[0].op != "blocktime" {
		return 0
	}
	l := linOf(t.args[1])
	if len(l) != 1 {
		return 0
	}
	for u, n := range l {
		if u != nil && strings.HasSuffix(u.op, ".OneDay") {
			return n
		}
	}
	return 0
}

// statusWriters: a status that may be indexed is written together with the index only.
func (c *Check) statusWriters(m *recMachine, s *statusFns) {
	n := 0
	bad := map[string]string{}
	for f := range c.P.allFns() {
		if strings.HasSuffix(c.P.Fset.Position(f.Pos()).Filename, ".pb.go") || f == s.setTo {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				w, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := w.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), m.info) || m.info.Underlying().(*types.Struct).Field(fa.Field).Name() != "Status" {
					continue
				}
				n++
				k, ok := w.Val.(*ssa.Const)
				v := int64(-1)
				if ok && k.Value != nil {
					v, _ = constant.Int64Val(k.Value)
				}
				if v < 0 || v >= s.first {
					bad[shortFn(f)] = c.P.pos(w.Pos())
				}
			}
		}
	}
	c.oblige(n >= 2, "the writers of statuses are found", refK, n)
	for f, p := range bad {
		c.oblige(false, "a status that may be indexed is written together with the index only", f, p)
	}
	if len(bad) == 0 {
		c.oblige(true, "a status that may be indexed is written together with the index only", refK, n)
	}
}

// requirements: what each status requires, by cases over up to four active referrals.
func (c *Check) requirements(m *recMachine, s *statusFns) {
	kids := []*V{Sym("ref1"), Sym("ref2"), Sym("ref3"), Sym("ref4")}
	acc := Sym("acc")
	resT := c.P.typeOf(refT, "StatusCheckResult")
	critT := c.P.typeOf(refT, "StatusCheckResult_Criterion")
	reported := map[string]bool{}
	run := func(n int64, cnt int, coins bool, big, team [4]bool, banished bool, seen func(a *V)) (string, bool) {
		value := update(update(recSym(acc), m.sel("ActiveReferrals"), List(kids[:cnt]...)), m.sel("Banished"), Bool(banished))
		o := pathOpts{inline: func(f *ssa.Function) bool {
			return fnPkgPath(f) == modPath+"/"+refK || fnPkgPath(f) == modPath+"/"+refT
		}, unroll: 14, limit: 2000, outLimit: 2000}
		kid := func(a *V) int {
			for i, r := range kids {
				if mention(a, recSym(r)) {
					return i
				}
			}
			return -1
		}
		o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if ci.Fn == m.get {
				a := stripIface(x.snap(st, ci.Args[1]))
				r := recSym(a)
				return true, []Outcome{{vals: []*V{update(r, m.sel("ActiveRefCounts"), List(rawApp("own", r), rawApp("line1", r), rawApp("line2", r))), vNil}, st: st}}
			}
			if strings.HasPrefix(ci.Name, "dynamic:") && strings.Contains(ci.Name, "lookup(") {
				if f := s.reqs[n]; f != nil {
					return true, x.exec(f, ci.Args[len(ci.Args)-2:], nil, st, ci.Site, ci.Ctx)
				}
			}
			return false, nil
		}
		o.hyp = func(x *Exec, a *V, st *State) (bool, bool) {
			if !a.is("lt") {
				return false, false
			}
			var lhs, lim *V
			neg := false
			if _, ok := intOf(a.args[1]); ok {
				lhs, lim = a.args[0], a.args[1]
			} else if _, ok := intOf(a.args[0]); ok { // lt(const, v): v > const
				lhs, lim, neg = a.args[1], a.args[0], true
			} else {
				return false, false
			}
			if neg { // at least one more
				n, _ := intOf(lim)
				lim = Int(n + 1)
			}
			i := kid(lhs)
			has := func(op string) bool { return lhs.mentions(func(y *V) bool { return y.op == op }) }
			switch {
			case i < 0 && lhs.mentions(func(y *V) bool { return strings.HasSuffix(y.op, "Delegated") }):
				if seen != nil {
					seen(rawApp("coins", lhs, lim))
				}
				return coins == neg, true
			case i >= 0 && !has("own"):
				if has("line2") || !has("line1") {
					return false, false
				}
				if seen != nil {
					seen(rawApp("size", lhs, lim))
				}
				return big[i] == neg, true
			case i >= 0:
				// the team is complete with its last line
				if seen != nil {
					seen(rawApp("team", lhs, lim))
				}
				return (team[i] && has("line2")) == neg, true
			}
			return false, false
		}
		res, cnt2 := false, 0
		reported = map[string]bool{}
		for _, p := range c.paths(s.check, []*V{Int(n), value, Sym("updates")}, o) {
			if !p.ok() || len(p.O.vals) == 0 {
				return "a path fails: " + p.exit(c), false
			}
			v := fieldVal(p.X.snap(p.O.st, p.O.vals[0]), resT, "Overall")
			crit := fieldVal(p.X.snap(p.O.st, p.O.vals[0]), resT, "Criteria")
			if crit.k == KList && critT != nil {
				for _, e := range crit.args {
					for _, f := range []string{"TargetValue", "ParameterX"} {
						if w, ok := intOf(fieldVal(e, critT, f)); ok {
							reported[f+itoa(int(w))] = true
						}
					}
				}
			}
			b, ok := boolOf(v)
			if !ok {
				b, ok = p.known(v)
			}
			if !ok {
				return "undecided: " + v.str(5), false
			}
			if cnt2 > 0 && b != res {
				return "depends on something else: " + p.factStr(""), false
			}
			res = b
			cnt2++
		}
		if cnt2 == 0 {
			return "no path", false
		}
		return "", res
	}
	type limits struct{ coins, count, size, team int64 }
	var last limits
	yes := [4]bool{true, true, true, true}
	for _, n := range s.all {
		what := fmt.Sprint("status ", n)
		if bad, ok := run(n, 4, true, yes, yes, true, nil); bad != "" || ok {
			c.oblige(false, "a banished account deserves no status", what, bad)
		} else {
			c.oblige(true, "a banished account deserves no status", what)
		}
		lim := limits{}
		lines := 0
		sees := func(a *V) {
			v, _ := intOf(a.args[1])
			switch a.op {
			case "coins":
				lim.coins = v
				lv := map[*V]bool{}
				a.args[0].mentions(func(y *V) bool {
					if y.is("index") && y.args[0].mentions(func(z *V) bool { return strings.HasSuffix(z.op, "Delegated") }) {
						lv[y.args[1]] = true
					}
					return false
				})
				for i := 0; i < len(lv); i++ {
					if !lv[Int(int64(i))] {
						lv = map[*V]bool{}
					}
				}
				lines = len(lv)
			case "size":
				lim.size = v
			case "team":
				lim.team = v
			}
		}
		bad := ""
		lim.count = -1
		for i := 0; i <= 4; i++ {
			b, ok := run(n, i, true, yes, yes, false, sees)
			if b != "" {
				bad = b
			}
			if ok && lim.count < 0 {
				lim.count = int64(i)
			}
			if !ok && lim.count >= 0 {
				bad = "more referrals are worse"
			}
		}
		c.oblige(bad == "" && lim.count >= 0, "the requirements are decided", what, bad)
		if bad != "" || lim.count < 0 {
			continue
		}
		bad = ""
		for _, l := range []struct {
			f string
			n int64
		}{{"TargetValue", lim.coins}, {"TargetValue", lim.count}, {"ParameterX", lim.size}, {"ParameterX", lim.team}} {
			if l.n > 0 && !reported[l.f+itoa(int(l.n))] {
				bad += fmt.Sprint(" ", l.f, " ", l.n)
			}
		}
		c.oblige(bad == "", "the limits applied are those reported", what, bad)
		bad = ""
		cases := 0
		for bits := 0; bits < 256; bits++ {
			var big, team [4]bool
			nb, nt := 0, 0
			for i := 0; i < 4; i++ {
				big[i], team[i] = bits&(1<<i) > 0, bits&(16<<i) > 0
				if big[i] {
					nb++
				}
				if team[i] {
					nt++
				}
			}
			if lim.team == 0 && bits >= 16 {
				continue
			}
			for _, coins := range []bool{true, false} {
				if lim.coins == 0 && !coins {
					continue
				}
				cases++
				want := coins && nb >= int(lim.count)
				if lim.team > 0 {
					want = want && nt >= int(lim.count)
				}
				b, ok := run(n, 4, coins, big, team, false, nil)
				if b != "" {
					bad = b
				} else if ok != want {
					bad = fmt.Sprint("coins ", coins, ", referrals ", big, ", teams ", team, ": deserved ", ok)
				}
			}
		}
		c.oblige(bad == "" && cases > 0, "a status is deserved exactly if each of its requirements is met", what, bad)
		if lim.coins > 0 {
			open := int64(-1)
			for _, p := range c.paths(c.method(refT, "Status", "LinesOpened"), []*V{Int(s.prev(n))}, pathOpts{}) {
				if p.ok() {
					open, _ = intOf(p.O.vals[0])
				}
			}
			c.oblige(open >= 0 && int64(lines) == open+1, "the coins of the lines open to the status below count", what, lines, open)
		}
		c.oblige(lim.coins >= last.coins && lim.count >= last.count && lim.size >= last.size && lim.team >= last.team, "a higher status requires no less", what, lim, last)
		last = lim
	}
}

// feeTable: the part of a validator of the status or above, up to the level.
var feeTable = []struct {
	status           string
	permille, levels int64
}{{"MASTER", 1, 4}, {"CHAMPION", 2, 6}, {"BUSINESSMAN", 3, 10}, {"PROFESSIONAL", 4, 12}, {"TOP_LEADER", 5, 14}, {"ABSOLUTE_CHAMPION", 6, 20}}

// ruleValidatorFees: who of the validators above an account gets which part.
func ruleValidatorFees(c *Check) {
	m := c.refMachine()
	f := c.method(refK, "Keeper", "GetReferralValidatorFeesForDelegating")
	if m == nil || f == nil {
		return
	}
	s := c.statusFns(m)
	feeT := c.P.typeOf(refT, "ReferralValidatorFee")
	act := c.method(nodK, "Keeper", "IsActiveValidator")
	if s == nil || act == nil || !c.oblige(feeT != nil, "anchor", "ReferralValidatorFee", "") {
		return
	}
	const depth = 22
	var line []*V
	for i := 0; i <= depth; i++ {
		line = append(line, Sym("above"+itoa(i)))
	}
	acc := Sym("acc")
	type val struct{ level, status int64 }
	type fee struct {
		level int
		ratio *V
	}
	run := func(vs ...val) (fees []fee, bad string) {
		m.init = map[*V]*V{acc: update(recSym(acc), m.sel("Referrer"), line[0])}
		active := map[*V]bool{}
		for i, a := range line {
			up := Str("")
			if i+1 < len(line) {
				up = line[i+1]
			}
			r := update(update(recSym(a), m.sel("Referrer"), up), m.sel("Status"), Int(s.max))
			for _, v := range vs {
				if v.level == int64(i) {
					r = update(r, m.sel("Status"), Int(v.status))
					active[a] = true
				}
			}
			m.init[a] = r
		}
		o := m.opts(func(a *V) (bool, bool) {
			if a.is("eq") {
				for _, x := range a.args {
					for _, l := range line {
						if x == l {
							return false, true
						}
					}
				}
			}
			return false, false
		})
		o.unroll = depth + 8
		base := o.onCall
		o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if ci.Fn == act || ci.Fn == nil && strings.HasSuffix(ci.Name, ".IsActiveValidator") {
				who := x.snap(st, ci.Args[len(ci.Args)-1])
				for a := range active {
					if mention(who, a) {
						return true, []Outcome{{vals: []*V{Bool(true), vNil}, st: st}}
					}
				}
				return true, []Outcome{{vals: []*V{Bool(false), vNil}, st: st}}
			}
			return base(x, ci, st)
		}
		n := 0
		for _, p := range c.paths(f, []*V{Sym("k"), Sym("ctx"), acc}, o) {
			if !p.ok() {
				continue
			}
			n++
			l := p.X.snap(p.O.st, p.O.vals[0])
			if l.k != KList {
				bad = "the result is " + l.str(5)
				continue
			}
			for _, e := range l.args {
				who, r := fieldVal(e, feeT, "Beneficiary"), fieldVal(e, feeT, "Ratio")
				at := -1
				for i, a := range line {
					if who == a {
						at = i
					}
				}
				fees = append(fees, fee{at, r})
			}
		}
		if n != 1 {
			bad = itoa(n) + " paths"
		}
		return
	}
	zero := new(big.Rat)
	value := func(v val) *big.Rat { // what a lone validator gets
		fs, bad := run(v)
		what := fmt.Sprint("level ", v.level+1, ", status ", v.status)
		c.oblige(bad == "" && len(fs) <= 1, "a lone validator above gets one part at most", what, bad)
		if len(fs) == 0 {
			return zero
		}
		r := ratOf(fs[0].ratio)
		c.oblige(r != nil && fs[0].level == int(v.level) && r.Sign() >= 0, "a validator's part is its own", what, fs[0].level, fs[0].ratio.str(6))
		if r == nil {
			return zero
		}
		return r
	}
	one := map[val]*big.Rat{}
	cap := big.NewRat(6, 1000)
	bad := ""
	paid := 0
	for l := int64(0); l <= depth; l++ {
		for _, st := range s.all {
			v := val{l, st}
			r := value(v)
			one[v] = r
			want := zero
			for _, w := range feeTable {
				if sc, ok := c.P.pkg(refT).Pkg.Scope().Lookup("STATUS_" + w.status).(*types.Const); ok {
					if n, _ := constant.Int64Val(sc.Val()); st >= n && l < w.levels {
						want = big.NewRat(w.permille, 1000)
					}
				}
			}
			if r.Cmp(want) != 0 {
				bad = fmt.Sprint("status ", st, " at level ", l+1, " gets ", r, " instead of ", want)
			}
			if r.Sign() > 0 {
				paid++
				if l >= 20 {
					bad = fmt.Sprint("beyond twenty levels, level ", l+1)
				}
			}
			if r.Cmp(cap) > 0 {
				bad = fmt.Sprint("more than 0.6%: ", r)
			}
			if l > 0 && one[val{l - 1, st}].Cmp(r) < 0 {
				bad = fmt.Sprint("a farther validator gets more, level ", l+1, " status ", st)
			}
			if p := s.prev(st); p >= s.min && one[val{l, p}].Cmp(r) > 0 {
				bad = fmt.Sprint("a higher status gets less, level ", l+1, " status ", st)
			}
		}
	}
	c.oblige(bad == "" && paid > 20 && one[val{0, s.max}].Cmp(cap) == 0, "validators' parts shrink with the distance, grow with the status and end at 0.6%", shortFn(f), bad, paid)
	// the levels at which parts change, and the statuses
	var levels []int64
	for l := int64(0); l <= depth; l++ {
		for _, st := range s.all {
			if l == 0 || l+1 <= depth && one[val{l, st}].Cmp(one[val{l + 1, st}]) != 0 || l > 0 && one[val{l, st}].Cmp(one[val{l - 1, st}]) != 0 {
				levels = append(levels, l)
				break
			}
		}
	}
	bad = ""
	pairs := 0
	for i, l1 := range levels {
		for _, l2 := range levels[i+1:] {
			for _, s1 := range s.all {
				for _, s2 := range s.all {
					v1, v2 := val{l1, s1}, val{l2, s2}
					fs, why := run(v1, v2)
					pairs++
					got := map[int]*big.Rat{}
					for _, x := range fs {
						r := ratOf(x.ratio)
						if r == nil || got[x.level] != nil {
							why = "a part is " + x.ratio.str(6)
							r = zero
						}
						got[x.level] = r
					}
					more := new(big.Rat).Sub(one[v2], one[v1])
					if more.Sign() < 0 {
						more = zero
					}
					for _, w := range []struct {
						l int64
						r *big.Rat
					}{{l1, one[v1]}, {l2, more}} {
						g := got[int(w.l)]
						delete(got, int(w.l))
						if g == nil {
							g = zero
						}
						if g.Cmp(w.r) != 0 {
							why += fmt.Sprint(" level ", w.l+1, " gets ", g, " instead of ", w.r)
						}
					}
					if len(got) > 0 {
						why += " somebody else gets a part"
					}
					if why != "" {
						bad = fmt.Sprint(v1, v2, ": ", why)
					}
				}
			}
		}
	}
	c.oblige(bad == "" && pairs > 500, "a validator gets what its part exceeds the parts of those below it", shortFn(f), bad, pairs)
	m.init = map[*V]*V{}
}

// ratOf evaluates a fraction made of constants.
func ratOf(v *V) *big.Rat {
	v = stripIface(v)
	if v.k != KApp {
		return nil
	}
	arg := func(i int) *big.Rat { return ratOf(v.args[i]) }
	num := func(i int) int64 { n, _ := intOf(v.args[i]); return n }
	isNum := func(i int) bool { _, ok := intOf(v.args[i]); return ok }
	switch n := v.op[strings.LastIndexByte(v.op, '.')+1:]; {
	case n == "Permille" && isNum(0):
		return big.NewRat(num(0), 1000)
	case n == "Percent" && isNum(0):
		return big.NewRat(num(0), 100)
	case n == "FractionInt" && isNum(0):
		return big.NewRat(num(0), 1)
	case n == "FractionZero":
		return new(big.Rat)
	case n == "NewFraction" && isNum(0) && isNum(1) && num(1) != 0:
		return big.NewRat(num(0), num(1))
	case n == "Reduce" && len(v.args) == 1:
		return arg(0)
	case (n == "Sub" || n == "Add") && len(v.args) == 2:
		a, b := arg(0), arg(1)
		if a == nil || b == nil {
			return nil
		}
		if n == "Add" {
			return new(big.Rat).Add(a, b)
		}
		return new(big.Rat).Sub(a, b)
	case n == "Neg" && len(v.args) == 1:
		if a := arg(0); a != nil {
			return new(big.Rat).Neg(a)
		}
	}
	return nil
}

// statusEvents: the events of changes of the status lead from the one to the other.
func (c *Check) statusEvents(p *Path, acc *V, from, to int64) string {
	t := c.P.typeOf(refT, "EventStatusUpdated")
	if t == nil {
		return "no EventStatusUpdated"
	}
	at := from
	for _, e := range p.announcements("EventStatusUpdated") {
		b, a := fieldVal(e, t, "Before"), fieldVal(e, t, "After")
		if b != Int(at) || stripIface(fieldVal(e, t, "Address")) != acc {
			return "before: " + b.str(4) + " of " + fieldVal(e, t, "Address").str(4)
		}
		n, ok := intOf(a)
		if !ok || n == at {
			return "after: " + a.str(4)
		}
		at = n
	}
	if at != to {
		return fmt.Sprint("announced ", at, " becomes ", to)
	}
	return ""
}
