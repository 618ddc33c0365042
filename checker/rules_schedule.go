package main

import (
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const schedK = "x/schedule/keeper"

func init() {
	register("S01", ruleTaskNames)
	register("S02", ruleTaskStore)
	register("S03", rulePerform)
}

// constStr resolves a string argument to its constant values.
func (P *Program) constStr(v ssa.Value) (string, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			return constant.StringVal(v.Value), true
		}
	case *ssa.ChangeType:
		return P.constStr(v.X)
	case *ssa.Convert:
		return P.constStr(v.X)
	}
	return "", false
}

// callSites lists every call that may reach f directly.
func (P *Program) callSites(f *ssa.Function) []ssa.CallInstruction {
	r := []ssa.CallInstruction{}
	for _, g := range P.Funcs {
		if g.Synthetic != "" {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, h := range P.callees(ci) {
					if h == f {
						r = append(r, ci)
						break
					}
				}
			}
		}
	}
	return r
}

// argOf is the i-th declared parameter's argument at a call site (receiver not counted).
func argOf(ci ssa.CallInstruction, i int) ssa.Value {
	c := ci.Common()
	if !c.IsInvoke() && c.Signature().Recv() != nil {
		i++
	}
	if i < len(c.Args) {
		return c.Args[i]
	}
	return nil
}

// ruleTaskNames: whatever is scheduled has a handler, and the right one.
func ruleTaskNames(c *Check) {
	addHook := c.method(schedK, "Keeper", "AddHook")
	sched := c.method(schedK, "Keeper", "ScheduleTask")
	if addHook == nil || sched == nil {
		return
	}
	reg := map[string][]*ssa.Function{}
	for _, ci := range c.P.callSites(addHook) {
		n, ok := c.P.constStr(argOf(ci, 0))
		if !c.oblige(ok, "task handlers are registered under constant names", posOfFn(c.P, ci), "cannot tell the name") {
			continue
		}
		h := hookTarget(argOf(ci, 1))
		if !c.oblige(h != nil, "task handlers are known functions", n, "cannot tell the function") {
			continue
		}
		if o := c.P.unwrap(h); o != nil {
			h = o
		}
		reg[n] = append(reg[n], h)
	}
	c.oblige(len(reg) >= 10, "coverage", "registered task names", len(reg))
	names := []string{}
	for n, fs := range reg {
		names = append(names, n)
		c.oblige(len(fs) == 1, "a task name has one handler", n, "registered ", len(fs), " times: the later replaces the earlier")
	}
	sort.Strings(names)
	used := map[string]bool{}
	n := 0
	for _, ci := range c.P.callSites(sched) {
		if isAppPkg(ci.Parent()) {
			continue
		}
		nm, ok := c.P.constStr(argOf(ci, 2))
		inst := shortFn(ci.Parent()) + " schedules " + nm
		n++
		if !c.oblige(ok, "scheduled task names are constants", inst, "cannot tell the name at ", posOf(c.P, ci)) {
			continue
		}
		used[nm] = true
		c.oblige(len(reg[nm]) > 0, "every scheduled task has a registered handler", inst, "no handler is registered under that name; registered: ", strings.Join(names, ", "))
	}
	c.oblige(n >= 9, "coverage", "scheduling call sites", n)
	// handlers: what a name stands for is fixed by what its scheduler expects to happen
	for _, w := range []struct{ rel, cons, mrel, typ, m string }{
		{"x/delegating/types", "RevokeHookName", "x/delegating/keeper", "Keeper", "MustPerformRevoking"},
		{"x/delegating/types", "AccrueHookName", "x/delegating/keeper", "Keeper", "MustPerformAccrue"},
		{"x/profile/types", "RefreshHookName", "x/profile/keeper", "Keeper", "HandleRenewHook"},
		{"x/profile/types", "RefreshImHookName", "x/profile/keeper", "Keeper", "HandleRenewImHook"},
		{"x/referral/keeper", "StatusDowngradeHookName", "x/referral/keeper", "Keeper", "PerformDowngrade"},
		{"x/referral/keeper", "CompressionHookName", "x/referral/keeper", "Keeper", "PerformCompression"},
		{"x/referral/keeper", "TransitionTimeoutHookName", "x/referral/keeper", "Keeper", "PerformTransitionTimeout"},
		{"x/referral/keeper", "BanishHookName", "x/referral/keeper", "Keeper", "PerformBanish"},
		{"x/voting/types", "VoteHookName", "x/voting/keeper", "Keeper", "ProcessSchedule"},
		{"x/voting/types", "PollHookName", "x/voting/keeper", "Keeper", "EndPollHandler"},
	} {
		v, ok := c.P.constVal(w.rel, w.cons)
		if !c.oblige(ok, "anchor", w.rel+"."+w.cons, "no such constant") {
			continue
		}
		m := c.method(w.mrel, w.typ, w.m)
		hit := false
		for _, h := range reg[v] {
			hit = hit || c.P.reachable(h)[m]
		}
		c.oblige(hit, "a task is handled by its own handler", v, "the handler registered does not lead to ", shortFn(m))
	}
}

func posOfFn(P *Program, ci ssa.CallInstruction) string { return shortFn(ci.Parent()) }

func (P *Program) constVal(rel, name string) (string, bool) {
	p := P.byRel[rel]
	if p == nil {
		return "", false
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return "", false
	}
	k, ok := o.(interface{ Val() constant.Value })
	if !ok || k.Val().Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Val()), true
}

// timeKey: the key is made of the instant.
func timeKey(k, t *V) bool { return mention(k, t) }

// ruleTaskStore: adding keeps what is there, removing removes exactly what is asked.
func ruleTaskStore(c *Check) {
	sched := c.method(schedK, "Keeper", "ScheduleTask")
	tt := c.P.typ("x/schedule/types", "Task")
	stt := c.P.typ("x/schedule/types", "Schedule")
	if sched == nil || tt == nil || stt == nil {
		return
	}
	tm, ev, data := Sym("time"), Sym("event"), Sym("data")
	tasksOf := func(e Ev) *V {
		v := e.Args[1]
		if !v.is("encode") {
			return nil
		}
		return fieldVal(v.args[0], stt, "Tasks")
	}
	n, kept := 0, 0
	for _, p := range c.paths(sched, []*V{Sym("keeper"), Sym("ctx"), tm, ev, data}, pathOpts{reads: true}) {
		if p.O.panic {
			continue
		}
		n++
		w := []Ev{}
		for _, e := range p.Ev {
			if e.Kind == "Set" || e.Kind == "Delete" {
				w = append(w, e)
			}
		}
		if !c.oblige(len(w) == 1 && w[0].Kind == "Set" && w[0].Store == "schedule", "scheduling stores the task", shortFn(sched), "a path does not write the schedule exactly once; ", p.exit(c)) {
			continue
		}
		c.oblige(timeKey(w[0].Args[0], tm), "scheduling stores the task under its time", shortFn(sched), "key ", w[0].Args[0])
		ts := tasksOf(w[0])
		if !c.oblige(ts != nil, "scheduling stores the task", shortFn(sched), "stores ", w[0].Args[1]) {
			continue
		}
		ts = stripIface(ts)
		var last *V
		base := vNil
		if ts.k == KList && len(ts.args) > 0 {
			last = ts.args[len(ts.args)-1]
			if len(ts.args) > 1 {
				base = List(ts.args[:len(ts.args)-1]...)
			}
		} else if ts.is("append") {
			last = ts.args[len(ts.args)-1]
			base = ts.args[0]
		}
		full := last != nil && fieldVal(last, tt, "Time") == tm && fieldVal(last, tt, "HandlerName") == ev && fieldVal(last, tt, "Data") == data
		c.oblige(full, "scheduling stores the task with its time, name and data", shortFn(sched), "stores ", ts)
		// what was there is kept
		g := p.first(func(e Ev) bool { return e.Kind == "Get" && e.Store == "schedule" })
		if !c.oblige(g >= 0 && p.Ev[g].Args[0] == w[0].Args[0], "scheduling keeps the tasks already there", shortFn(sched), "does not read what is stored under the key; ", p.exit(c)) {
			continue
		}
		if base == vNil {
			empty := false
			for f, v := range p.facts() {
				if f.is("isnil") && v && f.mentions(isGetCall) || f.is("eq") && v && f.mentions(isGetCall) {
					empty = true
				}
			}
			c.oblige(empty, "scheduling keeps the tasks already there", shortFn(sched), "starts from nothing without having seen that nothing is stored; ", p.exit(c))
		} else {
			kept++
			c.oblige(base.mentions(func(y *V) bool { return y.is("decode") && y.mentions(isGetCall) }), "scheduling keeps the tasks already there", shortFn(sched), "starts from ", base)
		}
	}
	c.oblige(n > 0 && kept > 0, "reachable success", shortFn(sched), n)
	// removing
	for _, name := range []string{"Delete", "DeleteAll"} {
		f := c.method(schedK, "Keeper", name)
		if f == nil {
			continue
		}
		args := []*V{Sym("keeper"), Sym("ctx"), tm, ev, data}[:len(f.Params)]
		isElemField := func(v *V, field string) bool {
			return fieldOf(v, "schedule/types.Task", field) && v.mentions(func(y *V) bool { return y.is("decode") })
		}
		match := func(a *V, field string, w *V) bool {
			return a.is("eq") && (isElemField(a.args[0], field) && a.args[1] == w || isElemField(a.args[1], field) && a.args[0] == w)
		}
		first := func(x *Exec, a *V, st *State) (bool, bool) { return atLeastOne(x, a, st) }
		// nothing matches by name: nothing is lost
		for _, what := range []string{"name", "data"} {
			if what == "data" && name == "DeleteAll" {
				continue
			}
			used := 0
			for _, p := range c.paths(f, args, pathOpts{reads: true, unroll: 1, hyp: func(x *Exec, a *V, st *State) (bool, bool) {
				if match(a, "HandlerName", ev) {
					used++
					return what != "name", true
				}
				if match(a, "Data", data) {
					return what != "data", true
				}
				return first(x, a, st)
			}}) {
				if p.O.panic {
					continue
				}
				for _, e := range p.Ev {
					if e.Kind == "Delete" {
						c.oblige(false, "removing a task leaves the others", shortFn(f), "removes the whole entry although a task with another ", what, " is in it; ", p.exit(c))
					}
					if e.Kind == "Set" {
						ts := tasksOf(e)
						ok := timeKey(e.Args[0], tm) && ts != nil && (ts.k == KList || ts.is("append")) && len(ts.args) > 0
						c.oblige(ok, "removing a task leaves the others", shortFn(f), "drops a task with another ", what, ": stores ", ts, "; ", p.exit(c))
					}
				}
			}
			c.oblige(used > 0, "coverage", shortFn(f)+" compares the task "+what, "no comparison with the name asked for")
		}
		// everything matches: the entry goes
		n := 0
		for _, p := range c.paths(f, args, pathOpts{reads: true, unroll: 1, hyp: func(x *Exec, a *V, st *State) (bool, bool) {
			if match(a, "HandlerName", ev) || match(a, "Data", data) {
				return true, true
			}
			if a.is("isnil") && a.mentions(isGetCall) {
				return false, true
			}
			return first(x, a, st)
		}}) {
			if p.O.panic {
				continue
			}
			n++
			ok := false
			for _, e := range p.Ev {
				if e.Kind == "Delete" && timeKey(e.Args[0], tm) {
					ok = true
				}
				if e.Kind == "Set" && timeKey(e.Args[0], tm) {
					ts := tasksOf(e)
					ok = ts != nil && (ts.k == KList || ts.k == KNil) && len(ts.args) == 0
				}
			}
			c.oblige(ok, "removing a task removes it", shortFn(f), "a matching task stays; ", p.exit(c))
		}
		c.oblige(n > 0, "reachable success", shortFn(f), "none")
	}
	// nobody else touches the schedule
	allowed := set(sched, c.method(schedK, "Keeper", "Delete"), c.method(schedK, "Keeper", "DeleteAll"), c.method(schedK, "Keeper", "PerformSchedule"), c.method(schedK, "Keeper", "InitGenesis"))
	nw := 0
	for _, op := range c.P.storeOps() {
		if (op.Op == "Set" || op.Op == "Delete") && op.Store["schedule"] && !isAppPkg(op.Fn) {
			nw++
			ok, w := c.P.confined(op.Fn, allowed)
			c.oblige(ok, "only the scheduler writes the schedule", shortFn(op.Fn), "reachable from ", shortFn(w))
		}
	}
	c.oblige(nw >= 3, "coverage", "schedule store writes", nw)
}

func isGetCall(y *V) bool {
	return y.hasOp("call:") && (strings.HasSuffix(y.op, "KVStore.Get") || strings.HasSuffix(y.op, "Store).Get"))
}

// rulePerform: at every block the due tasks, and only they, are run and removed.
func rulePerform(c *Check) {
	perf := c.method(schedK, "Keeper", "PerformSchedule")
	if perf == nil {
		return
	}
	// executed at every block
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) == modPath+"/x/schedule" && f.Name() == "BeginBlock" && f.Signature.Recv() != nil && f.Synthetic == "" {
			for _, p := range c.paths(f, nil, pathOpts{watch: set(perf)}) {
				c.oblige(p.O.panic || p.has(calls(perf)), "due tasks are run at the beginning of every block", shortFn(f), p.exit(c))
			}
			c.oblige(true, "coverage", "begin blocker", "")
		}
	}
	tm := func(v *V) bool { return v.mentions(func(y *V) bool { return y.is("blocktime") }) }
	for _, fail := range []bool{false, true} {
		n := 0
		ps := c.paths(perf, nil, pathOpts{reads: true, unroll: 2, iterOne: true, onCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if fail && ci.Fn == nil && ci.Iface == nil && strings.HasPrefix(ci.Name, "dynamic:") && ci.Sig.Params().Len() == 3 {
				st.ev["hookpanic"] = Bool(true)
				return true, []Outcome{{panic: true, st: st}}
			}
			return false, nil
		}, hyp: func(x *Exec, a *V, st *State) (bool, bool) {
			// the handler is registered
			if a.is("isnil") && a.args[0].is("lookup") && hasFieldNamed(a.args[0], "eventHooks") {
				return false, true
			}
			if a.is("has") && hasFieldNamed(a, "eventHooks") {
				return true, true
			}
			// an entry that was scanned is still there
			if a.is("isnil") && isGetCall(stripIface(a.args[0])) {
				return false, true
			}
			return false, false
		}})
		for _, p := range ps {
			if fail {
				if p.O.st.ev["hookpanic"] == nil {
					continue
				}
				n++
				c.oblige(!p.O.panic, "a failing task does not stop the block", shortFn(perf), "a handler's panic escapes")
				c.oblige(p.O.panic || p.has(func(e Ev) bool { return e.Kind == "Delete" }), "a failing task is removed like any other", shortFn(perf), "nothing is removed; ", p.exit(c))
				continue
			}
			if p.O.panic {
				continue
			}
			n++
			it := p.first(func(e Ev) bool { return e.Kind == "Iterator" })
			if c.oblige(it >= 0, "due tasks are those up to the block's time", shortFn(perf), "the schedule is not scanned") {
				c.oblige(p.Ev[it].Args[0].k == KNil && len(p.Ev[it].Args) > 1 && tm(p.Ev[it].Args[1]), "due tasks are those up to the block's time", shortFn(perf), "scans from ", p.Ev[it].Args[0], " to ", p.Ev[it].Args[1:])
			}
			d := p.first(func(e Ev) bool { return e.Kind == "dyn" && len(e.Args) == 4 })
			if c.oblige(d >= 0, "every due task is run", shortFn(perf), "a due task with a handler is not run; ", p.exit(c)) {
				e := p.Ev[d]
				ok := e.Args[0].is("lookup") && hasFieldNamed(e.Args[0].args[0], "eventHooks") && fieldOf(e.Args[0].args[1], "types.Task", "HandlerName")
				c.oblige(ok, "a task is run by the handler of its name", shortFn(perf), "runs ", e.Args[0])
				c.oblige(fieldOf(e.Args[2], "types.Task", "Data") && fieldOf(e.Args[3], "types.Task", "Time"), "a task is run with its own data and time", shortFn(perf), "runs it with ", e.Args[2], " and ", e.Args[3])
			}
			c.oblige(p.has(func(e Ev) bool { return e.Kind == "Delete" }), "a task that was run is removed", shortFn(perf), "nothing is removed; ", p.exit(c))
			// tasks scheduled while tasks run survive: an entry is removed before its tasks run, or read again
			for i, e := range p.Ev {
				if e.Kind != "Delete" {
					continue
				}
				ran, reread := false, false
				for j := i - 1; j >= 0; j-- {
					if p.Ev[j].Kind == "dyn" {
						ran = true
						break
					}
					if p.Ev[j].Kind == "Get" && p.Ev[j].Args[0] == e.Args[0] {
						reread = true
						break
					}
				}
				c.oblige(!ran || reread, "what is scheduled while tasks run is kept", shortFn(perf), "an entry is removed after tasks ran without looking at it again: a task they added to it is lost; at ", posOf(c.P, e.At.(ssa.CallInstruction)))
				c.oblige(e.Store == "schedule", "what is scheduled while tasks run is kept", shortFn(perf), "entries are removed through a buffer, written back over what the tasks did")
			}
		}
		c.oblige(n > 0, "reachable success", shortFn(perf), n)
	}
}
