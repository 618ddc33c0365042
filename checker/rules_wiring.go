package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func named(suffix ...string) func(ci *CallInfo) bool {
	return func(ci *CallInfo) bool {
		for _, s := range suffix {
			if strings.HasSuffix(ci.Name, "."+s) {
				return true
			}
		}
		return false
	}
}

// implementers lists the repository's types having the method, by the module they belong to.
func (c *Check) appModules() map[string]*types.Named {
	r := map[string]*types.Named{}
	for rel, p := range c.P.byRel {
		if !strings.HasPrefix(rel, "x/") || strings.Count(rel, "/") != 1 {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || tn.IsAlias() {
				continue
			}
			// the application module is what has a route and a genesis
			if c.P.methodOf(nt, "Route") != nil && c.P.methodOf(nt, "InitGenesis") != nil {
				r[strings.TrimPrefix(rel, "x/")] = nt
			}
		}
	}
	return r
}

// ruleWiring: every message gets to the one that handles it.
func ruleWiring(c *Check) {
	const (
		kDisp  = "a module's handler gives each message to its own server method"
		kRef   = "a module's handler refuses messages it does not know"
		kRoute = "a message is routed to its module"
		kType  = "the messages of a module have types of their own"
		kCodec = "a message is registered for decoding"
		kName  = "registered names are unique"
		kSrv   = "a module registers its servers"
	)
	msgs := map[string][]msgMethod{}
	for _, mm := range c.P.msgMethods() {
		msgs[mm.Module] = append(msgs[mm.Module], mm)
	}
	mods := c.appModules()
	var names []string
	for m := range msgs {
		names = append(names, m)
	}
	sort.Strings(names)
	used := map[string]string{}
	for _, m := range names {
		am := mods[m]
		if !c.oblige(am != nil, "anchor", "x/"+m, "application module") {
			continue
		}
		one := func(name string, args ...*V) []*Path {
			f := c.P.methodOf(am, name)
			if !c.oblige(f != nil, "anchor", "x/"+m+"."+name, "gone") {
				return nil
			}
			for len(args) < len(f.Params) {
				args = append(args, Sym(fmt.Sprintf("a%d", len(args))))
			}
			var r []*Path
			o := pathOpts{inline: anyRepo, unroll: 40,
				watchI: named("NewRoute", "RegisterConcrete", "RegisterImplementations", "RegisterMsgServer", "RegisterQueryServer")}
			for _, p := range c.paths(f, args, o) {
				if !p.O.panic {
					r = append(r, p)
				}
			}
			return r
		}
		// the route and the handler
		route := ""
		var handler *V
		for _, p := range one("Route", Sym("am")) {
			for _, e := range p.Ev {
				if strings.HasSuffix(e.Name, ".NewRoute") && len(e.Args) == 2 {
					route, _ = strOf(e.Args[0])
					handler = stripIface(e.Args[1])
				}
			}
		}
		if !c.oblige(route != "" && handler != nil && handler.k == KFunc, kRoute, "x/"+m, route, handler) {
			continue
		}
		srv := map[*ssa.Function]string{}
		for _, mm := range msgs[m] {
			srv[mm.Fn] = mm.Name
		}
		handle := func(msg *V) []*Path {
			return c.paths(handler.fn, []*V{Sym("ctx"), msg}, pathOpts{inline: func(f *ssa.Function) bool { return anyRepo(f) && srv[f] == "" }, free: handler.args, fails: true,
				onCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
					if !named("WrapServiceResult")(ci) || len(ci.Args) != 3 {
						return false, nil
					}
					oc := x.Opaque(ci, st) // fails if it is given an error
					oc.vals[1] = ci.Args[2]
					return true, []Outcome{oc}
				},
				watchI: func(ci *CallInfo) bool {
					return ci.Fn != nil && srv[ci.Fn] != "" || ci.Fn == nil && isServer(ci)
				}})
		}
		for _, mm := range msgs[m] {
			id := m + "." + mm.Name
			if mm.Msg == nil {
				c.oblige(false, "anchor", id, "no message")
				continue
			}
			msg := Sym("msg")
			n := 0
			for _, p := range handle(Iface(types.NewPointer(mm.Msg), msg)) {
				if p.O.panic {
					continue
				}
				n++
				k, bad := 0, ""
				for _, e := range p.Ev {
					if e.Kind != "call" {
						continue
					}
					k++
					if !(srv[e.Fn] == mm.Name || e.Fn == nil && strings.HasSuffix(e.Name, "."+mm.Name)) || e.Args[len(e.Args)-1] != msg {
						bad += e.Name + " "
					}
					if !mention(e.Args[len(e.Args)-2], Sym("ctx")) {
						bad += "another context "
					}
				}
				f := p.O.st.ev["failed"]
				if (f != nil) == p.Ok {
					bad += fmt.Sprintf("server failed %v, handler succeeds %v", f, p.Ok)
				}
				if f != nil {
					k++
					if !strings.HasSuffix(f.op, "."+mm.Name) {
						bad += f.op
					}
				}
				c.oblige(k == 1 && bad == "", kDisp, id, k, " ", bad, p.exit(c))
			}
			c.oblige(n > 0, kDisp, id, "never handled")
		}
		// unknown messages
		for _, mm := range c.P.msgMethods() {
			if mm.Module == m || mm.Msg == nil {
				continue
			}
			for _, p := range handle(Iface(types.NewPointer(mm.Msg), Sym("msg"))) {
				if p.O.panic {
					continue
				}
				c.oblige(!p.Ok && len(p.O.st.ev) == 0, kRef, m+": "+mm.Module+"."+mm.Name, p.exit(c))
			}
			break
		}
		c.oblige(used["route "+route] == "", kRoute, "x/"+m, "shares its route with ", used["route "+route])
		used["route "+route] = m
		// what the messages say of themselves
		for _, mm := range msgs[m] {
			if mm.Msg == nil {
				continue
			}
			id := m + "." + mm.Name
			text := func(meth string) string {
				f := c.P.methodOf(mm.Msg, meth)
				if !c.oblige(f != nil, "anchor", id+"."+meth, "gone") {
					return ""
				}
				r := ""
				for _, p := range c.paths(f, []*V{Sym("msg")}, pathOpts{inline: anyRepo}) {
					s, ok := strOf(p.O.vals[0])
					if p.O.panic || !ok || r != "" && r != s {
						return ""
					}
					r = s
				}
				return r
			}
			c.oblige(text("Route") == route, kRoute, id, text("Route"), " but the module takes ", route)
			t := text("Type")
			c.oblige(t != "" && used["type "+m+"/"+t] == "", kType, id, t, " ", used["type "+m+"/"+t])
			used["type "+m+"/"+t] = id
		}
		// registrations
		amino, impl := map[string]int{}, map[string]int{}
		once := true
		ps := one("RegisterLegacyAminoCodec")
		once = once && len(ps) == 1
		for _, p := range ps {
			for _, e := range p.Ev {
				if !strings.HasSuffix(e.Name, ".RegisterConcrete") || len(e.Args) < 3 {
					continue
				}
				s, ok := strOf(e.Args[2])
				t := ""
				if a := e.Args[1]; a.t != nil {
					t = strings.TrimPrefix(typeName(a.t), "*")
				}
				amino[t]++
				c.oblige(ok && used["amino "+s] == "" && t != "", kName, s+" "+t, used["amino "+s])
				used["amino "+s] = t
			}
		}
		ps = one("RegisterInterfaces")
		once = once && len(ps) == 1
		for _, p := range ps {
			for _, e := range p.Ev {
				if !strings.HasSuffix(e.Name, ".RegisterImplementations") || len(e.Args) < 3 {
					continue
				}
				for _, a := range e.Args[2:] {
					for _, y := range elems(a) {
						if y.t != nil {
							impl[strings.TrimPrefix(typeName(y.t), "*")]++
						}
					}
				}
			}
		}
		c.oblige(once, kCodec, "x/"+m, "registration depends on something")
		for _, mm := range msgs[m] {
			if mm.Msg == nil {
				continue
			}
			t := typeName(mm.Msg)
			c.oblige(amino[t] == 1, kCodec, m+"."+mm.Name+" (amino)", amino[t], " ", amino)
			c.oblige(impl[t] == 1, kCodec, m+"."+mm.Name, impl[t], " ", impl)
		}
		ps = one("RegisterServices", Sym("am"), Sym("cfg"))
		for _, p := range ps {
			n := map[string]int{}
			for _, e := range p.Ev {
				for _, w := range []string{"MsgServer", "QueryServer"} {
					if strings.HasSuffix(e.Name, ".Register"+w) && strings.Contains(e.Name, "x/"+m+"/types.") {
						n[w]++
					}
				}
			}
			c.oblige(n["MsgServer"] == 1 && n["QueryServer"] == 1, kSrv, "x/"+m, n)
		}
		c.oblige(len(ps) == 1, kSrv, "x/"+m, len(ps))
	}
}

func elems(v *V) []*V {
	if v.k == KList {
		return v.args
	}
	return []*V{v}
}

func isServer(ci *CallInfo) bool { return ci.Iface != nil && strings.Contains(ci.Name, "MsgServer") }

func init() { register("A03", ruleWiring) }
