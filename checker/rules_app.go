package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mentionedModules: the modules of the repository whose application module a value is built from.
func appModuleOf(v *V) string {
	s := strings.TrimPrefix(strings.TrimPrefix(v.op, "call:"), "x/")
	if v.k == KStruct || v.k == KZero {
		for v.k == KStruct {
			v = v.args[0]
		}
		if v.t != nil {
			s = strings.TrimPrefix(typeName(v.t), "x/")
		}
	}
	if i := strings.Index(s, ".NewAppModule"); i > 0 {
		return s[:i]
	}
	if i := strings.Index(s, ".AppModule"); i > 0 {
		return s[:i]
	}
	return ""
}

// ruleApp: the application puts its modules together.
func ruleApp(c *Check) {
	const (
		kManaged = "every module is managed, once"
		kBasic   = "every module's codec, default genesis and routes are known to the application"
		kGenesis = "every module with state is set up from genesis, once"
		kBegin   = "every module with work at the start of a block is called then, once"
		kEnd     = "every module with work at the end of a block is called then, once"
		kFirst   = "upgrades come before anything else in a block"
		kBlock   = "the application passes the start, the end and the genesis on to its modules"
		kStore   = "every keeper has stores and a parameter space of its own"
		kMount   = "every store used is mounted"
		kOwn     = "what handles one event handles no other"
		kHeard   = "what is announced is heard exactly once"
		kHook    = "every scheduled event has exactly one handler"
		kEarly   = "keepers are complete before modules are built from them"
	)
	mods := c.appModules()
	f := c.fn("app", "NewArteryApp")
	if f == nil || !c.oblige(len(mods) > 0, "anchor", "application modules") {
		return
	}
	var ps []*Path
	own := func(g *ssa.Function) bool { return isAppPkg(g) && !strings.Contains(c.P.pos(g.Pos()), "upgrade") }
	isKeeper := func(ci *CallInfo) bool {
		return ci.Fn != nil && c.P.isRepoFn(ci.Fn) && strings.HasPrefix(ci.Fn.Name(), "New") && strings.HasSuffix(ci.Fn.Name(), "Keeper") && strings.Contains(fnPkgPath(ci.Fn), "/x/")
	}
	w := named("NewManager", "SetOrderBeginBlockers", "SetOrderEndBlockers", "SetOrderInitGenesis", "SetBeginBlocker", "SetEndBlocker", "SetInitChainer", "RegisterRoutes",
		"RegisterServices", "SetAnteHandler", "AddHook", "SetKeepers", "MountKVStores", "NewKVStoreKeys", "Subspace")
	o := pathOpts{inline: own, unroll: 4, limit: 60, outLimit: 60, watchI: func(ci *CallInfo) bool { return w(ci) || isKeeper(ci) }}
	for _, p := range c.paths(f, nil, o) {
		if !p.O.panic {
			ps = append(ps, p)
		}
	}
	if !c.oblige(len(ps) > 0, "anchor", shortFn(f), "never finishes") {
		return
	}
	p := ps[0]
	for _, q := range ps[1:] {
		c.oblige(len(q.Ev) == len(p.Ev), kManaged, shortFn(f), "the application is put together in different ways")
	}
	at := map[string][]int{}
	for i, e := range p.Ev {
		n := e.Name[strings.LastIndexByte(e.Name, '.')+1:]
		at[n] = append(at[n], i)
	}
	strs := func(name string) []string {
		var r []string
		if len(at[name]) != 1 {
			c.oblige(false, "anchor", name, len(at[name]), " calls")
			return nil
		}
		e := p.Ev[at[name][0]]
		for _, x := range elems(e.Args[len(e.Args)-1]) {
			s, ok := strOf(x)
			c.oblige(ok, "anchor", name, "a module that is not known: ", x)
			r = append(r, s)
		}
		return r
	}
	count := func(l []string, s string) int {
		n := 0
		for _, x := range l {
			if x == s {
				n++
			}
		}
		return n
	}
	if !c.oblige(len(at["NewManager"]) == 1, "anchor", "NewManager", len(at["NewManager"])) {
		return
	}
	man := p.Ev[at["NewManager"][0]]
	managed := map[string]int{}
	for _, x := range elems(man.Args[len(man.Args)-1]) {
		managed[appModuleOf(stripIface(x))]++
	}
	begin, end, gen := strs("SetOrderBeginBlockers"), strs("SetOrderEndBlockers"), strs("SetOrderInitGenesis")
	basics := map[string]int{}
	if in := c.P.pkg("app").Func("init"); c.oblige(in != nil, "anchor", "app.init") {
		for _, q := range c.paths(in, nil, pathOpts{inline: func(*ssa.Function) bool { return false }, watchI: named("NewBasicManager"), hyp: func(x *Exec, a *V, st *State) (bool, bool) {
			return false, strings.Contains(a.String(), "init$guard")
		}}) {
			for _, e := range q.Ev {
				for _, x := range elems(e.Args[len(e.Args)-1]) {
					if x.t != nil {
						basics[strings.TrimPrefix(strings.TrimSuffix(typeName(x.t), ".AppModuleBasic"), "x/")]++
					}
				}
			}
		}
	}
	var names []string
	for m := range mods {
		names = append(names, m)
	}
	sort.Strings(names)
	for _, m := range names {
		am := mods[m]
		c.oblige(managed[m] == 1, kManaged, "x/"+m, managed[m], " ", managed)
		c.oblige(basics[m] == 1, kBasic, "x/"+m, basics[m], " ", basics)
		name := ""
		if g := c.P.methodOf(am, "Name"); g != nil {
			for _, q := range c.paths(g, []*V{Sym("am")}, pathOpts{inline: anyRepo}) {
				name, _ = strOf(q.O.vals[0])
			}
		}
		if !c.oblige(name != "", "anchor", "x/"+m, "has no name") {
			continue
		}
		works := func(meth string) bool {
			g := c.P.methodOf(am, meth)
			if !c.oblige(g != nil, "anchor", "x/"+m+"."+meth, "gone") {
				return false
			}
			for _, q := range c.paths(g, nil, pathOpts{inline: anyRepo, limit: 50, outLimit: 50, unroll: 1, watchI: func(ci *CallInfo) bool { return ci.Fn != nil && c.P.isRepoFn(ci.Fn) }}) {
				if len(q.Ev) > 0 {
					return true
				}
				for _, v := range q.O.vals {
					if !isNilV(v) && !isZeroV(v) && !(v.k == KList && len(v.args) == 0) {
						return true
					}
				}
			}
			return false
		}
		nb, ne, ng := count(begin, name), count(end, name), count(gen, name)
		c.oblige(nb == 1 || nb == 0 && !works("BeginBlock"), kBegin, "x/"+m, nb)
		c.oblige(ne == 1 || ne == 0 && !works("EndBlock"), kEnd, "x/"+m, ne)
		c.oblige(ng == 1 || ng == 0 && !works("InitGenesis"), kGenesis, "x/"+m, ng)
	}
	c.oblige(len(begin) > 0 && begin[0] == "upgrade", kFirst, shortFn(f), begin)
	// what the base application calls
	at1 := func(set, meth, op string) {
		if !c.oblige(len(at[set]) == 1, kBlock, set, len(at[set]), " calls") {
			return
		}
		e := p.Ev[at[set][0]]
		h := stripIface(e.Args[len(e.Args)-1])
		if !c.oblige(h.k == KFunc && h.fn != nil, kBlock, set, h) {
			return
		}
		n, bad := 0, ""
		var args []*V
		for i := range h.fn.Params {
			args = append(args, Sym(fmt.Sprintf("h%d", i)))
		}
		for _, q := range c.paths(h.fn, args, pathOpts{inline: func(g *ssa.Function) bool { return isAppPkg(g) || g.Synthetic != "" }, free: h.args, watchI: named("Manager)." + op)}) {
			if q.O.panic {
				continue
			}
			n++
			k := 0
			for _, e := range q.Ev {
				k++
				r := len(q.O.vals) == 1 && q.O.vals[0].hasOp("call:") && strings.HasSuffix(q.O.vals[0].op, ")."+op)
				if !mention(e.Args[1], Sym("h0")) || !r {
					bad = fmt.Sprint(e.Args, q.O.vals)
				}
			}
			if k != 1 {
				bad = fmt.Sprint(k, " calls")
			}
		}
		c.oblige(n > 0 && bad == "", kBlock, op, n, " ", bad)
	}
	at1("SetBeginBlocker", "BeginBlocker", "BeginBlock")
	at1("SetEndBlocker", "EndBlocker", "EndBlock")
	at1("SetInitChainer", "InitChainer", "InitGenesis")
	for _, n := range []string{"RegisterRoutes", "RegisterServices", "SetAnteHandler"} {
		c.oblige(len(at[n]) == 1, kBlock, n, len(at[n]))
	}
	// stores and parameter spaces
	keys := map[string]int{}
	for _, i := range at["NewKVStoreKeys"] {
		for _, x := range elems(p.Ev[i].Args[0]) {
			s, _ := strOf(x)
			keys[s]++
		}
	}
	c.oblige(len(at["MountKVStores"]) == 1 && len(at["NewKVStoreKeys"]) == 1 && p.Ev[at["MountKVStores"][0]].Args[1].is("call:github.com/cosmos/cosmos-sdk/types.NewKVStoreKeys"), kMount, shortFn(f), at["MountKVStores"])
	owner, space := map[string]string{}, map[string]string{}
	nk := 0
	for _, e := range p.Ev {
		if e.Fn == nil || !isKeeper(&CallInfo{Fn: e.Fn}) {
			continue
		}
		nk++
		id := shortFn(e.Fn)
		ns, np := 0, 0
		for _, a := range e.Args {
			a = stripIface(a)
			if a.is("lookup") && a.args[0].is("call:github.com/cosmos/cosmos-sdk/types.NewKVStoreKeys") {
				s, ok := strOf(a.args[1])
				c.oblige(ok && owner[s] == "", kStore, id, a.args[1], " ", owner[s])
				c.oblige(keys[s] == 1, kMount, id, s)
				owner[s] = id
				ns++
			}
			if strings.HasSuffix(a.op, ").Subspace") {
				s, ok := strOf(a.args[1])
				c.oblige(ok && space[s] == "", kStore, id, s, " ", space[s])
				space[s] = id
				np++
			}
		}
		c.oblige(ns > 0 && np > 0, kStore, id, ns, " stores, ", np, " parameter spaces")
	}
	c.oblige(nk >= len(names), kStore, shortFn(f), nk, " keepers")
	// events
	handled, heard, handler := map[string]int{}, map[string]int{}, map[string]string{}
	for _, i := range at["AddHook"] {
		e := p.Ev[i]
		if strings.Contains(e.Name, "x/schedule/") {
			s, ok := strOf(e.Args[1])
			c.oblige(ok, kHook, c.P.pos(e.At.Pos()), e.Args[1])
			handled[s]++
			c.oblige(e.Args[2].k == KFunc, kHook, s, e.Args[2])
		}
		if s, ok := strOf(e.Args[1]); ok && e.Args[len(e.Args)-1].k == KFunc {
			fn := e.Args[len(e.Args)-1].String()
			c.oblige(handler[fn] == "" || handler[fn] == s, kOwn, s, handler[fn], " and ", s)
			handler[fn] = s
			heard[s]++
		}
		c.oblige(i < at["NewManager"][0], kEarly, posOf(c.P, e.At))
	}
	cb := 0
	for _, name := range c.P.byRel["x/referral/keeper"].Types.Scope().Names() {
		k, ok := c.P.byRel["x/referral/keeper"].Types.Scope().Lookup(name).(*types.Const)
		if ok && strings.HasSuffix(name, "Callback") {
			s, _ := strOf(Const(k.Val()))
			c.oblige(heard[s] == 1, kHeard, s, heard[s])
			cb++
		}
	}
	c.oblige(cb >= 3, "anchor", "announcements", cb)
	c.oblige(heard["SetCoins"] == 1, kHeard, "SetCoins", heard["SetCoins"])
	for _, i := range at["SetKeepers"] {
		c.oblige(i < at["NewManager"][0], kEarly, posOf(c.P, p.Ev[i].At))
	}
	for s, n := range handled {
		c.oblige(n == 1, kHook, s, n)
	}
	used := map[string]bool{}
	for g := range c.P.graph().out {
		if !c.P.isRepoFn(g) || isAppPkg(g) || g.Blocks == nil {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				nm := ""
				if cc.IsInvoke() {
					nm = cc.Method.Name()
				} else if h := c.P.calleeOf(cc); h != nil {
					nm = h.Name()
				}
				if nm != "ScheduleTask" {
					continue
				}
				for _, a := range cc.Args {
					if k, ok := a.(*ssa.Const); ok && types.Identical(k.Type().Underlying(), types.Typ[types.String]) {
						s, _ := strOf(Const(k.Value))
						used[s] = true
						c.oblige(handled[s] == 1, kHook, shortFn(g)+" "+s, handled[s])
					}
				}
			}
		}
	}
	c.oblige(len(used) > 3, "anchor", "scheduled events", used)
}

func init() { register("G03", ruleApp) }
