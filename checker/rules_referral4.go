package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R06", ruleCollector)
}

// stringLists decides what the helpers on lists of texts do, on every list over a small alphabet.
func (c *Check) stringLists() {
	alpha := []string{"a", "c", "e"}
	var lists [][]string // sorted lists without repetition
	for bits := 0; bits < 8; bits++ {
		l := []string{}
		for i, s := range alpha {
			if bits&(1<<i) > 0 {
				l = append(l, s)
			}
		}
		lists = append(lists, l)
	}
	orders := append([][]string{}, lists...)
	orders = append(orders, []string{"c", "a"}, []string{"e", "a", "c"}, []string{"c", "e", "a"})
	val := func(l []string) *V {
		vs := []*V{}
		for _, s := range l {
			vs = append(vs, Str(s))
		}
		return List(vs...)
	}
	read := func(v *V) ([]string, bool) {
		v = thaw(stripIface(v))
		if v.k == KNil || v.k == KZero {
			return nil, true
		}
		if v.k != KList {
			return nil, false
		}
		r := []string{}
		for _, a := range v.args {
			s, ok := strOf(a)
			if !ok {
				return nil, false
			}
			r = append(r, s)
		}
		return r, true
	}
	eq := func(a, b []string) bool { return strings.Join(a, " ") == strings.Join(b, " ") }
	sorted := func(a []string) []string { b := append([]string{}, a...); sort.Strings(b); return b }
	has := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	cmp := func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
		if ci.Name == "strings.Compare" && len(ci.Args) == 2 {
			a, ok1 := strOf(ci.Args[0])
			b, ok2 := strOf(ci.Args[1])
			if ok1 && ok2 {
				return true, []Outcome{{vals: []*V{Int(int64(strings.Compare(a, b)))}, st: st}}
			}
		}
		return false, nil
	}
	for _, h := range []struct {
		name   string
		lists  [][]string
		remove bool
		order  bool // the order is kept
		sorted bool
	}{{"RemoveStringFast", orders, true, false, false}, {"RemoveStringPreserveOrder", orders, true, true, false}, {"AddStringSorted", lists, false, false, true}, {"AddStringOntoEnd", orders, false, true, false}} {
		f := c.P.fn("util", h.name)
		if f == nil {
			continue // not there, not used
		}
		bad, n := "", 0
		for _, l := range h.lists {
			for _, it := range []string{"0", "a", "b", "c", "d", "e", "f"} {
				at := Addr(rawApp("alloc", Sym("list")))
				st := newState()
				st.mem[at.args[0]] = val(l)
				want := []string{}
				for _, s := range l {
					if !h.remove || s != it {
						want = append(want, s)
					}
				}
				done := has(l, it)
				if !h.remove {
					done = !done
					if done {
						want = append(want, it)
					}
				}
				ps := c.paths(f, []*V{at, Str(it)}, pathOpts{st: st, unroll: 8, onCall: cmp})
				for _, p := range ps {
					got, ok := read(p.X.snap(p.O.st, p.X.load(p.O.st, at)))
					w := want
					if h.sorted || !h.order {
						w = sorted(w)
						if !h.sorted {
							got = sorted(got)
						}
					}
					b, kn := boolOf(p.O.vals[0])
					if p.O.panic || !ok || !eq(got, w) || !kn || b != done {
						bad = fmt.Sprint(l, " and ", it, ": ", got, " ", b, " ", p.X.load(p.O.st, at).str(6))
					}
					n++
				}
			}
		}
		c.oblige(bad == "" && n >= 50, "a text is added to and removed from a list exactly once", h.name, bad, n)
	}
	if f := c.P.fn("util", "MergeStringsSorted"); f != nil {
		bad, n := "", 0
		for _, l1 := range lists {
			for _, l2 := range lists {
				want := append([]string{}, l1...)
				for _, s := range l2 {
					if !has(want, s) {
						want = append(want, s)
					}
				}
				want = sorted(want)
				for _, p := range c.paths(f, []*V{val(l1), val(l2)}, pathOpts{unroll: 10, onCall: cmp}) {
					got, ok := read(p.X.snap(p.O.st, p.O.vals[0]))
					if p.O.panic || !ok || !eq(got, want) {
						bad = fmt.Sprint(l1, " with ", l2, ": ", got, " ", p.O.vals[0].str(6))
					}
					n++
				}
			}
		}
		c.oblige(bad == "" && n >= 60, "merging sorted lists keeps every text once", "MergeStringsSorted", bad, n)
	}
	if f := c.P.fn("util", "ContainsString"); f != nil {
		bad, n := "", 0
		for _, l := range orders {
			for _, it := range []string{"0", "a", "b", "c", "e", "f"} {
				for _, p := range c.paths(f, []*V{val(l), Str(it)}, pathOpts{unroll: 8, onCall: cmp}) {
					b, kn := boolOf(p.O.vals[0])
					if p.O.panic || !kn || b != has(l, it) {
						bad = fmt.Sprint(l, " and ", it)
					}
					n++
				}
			}
		}
		c.oblige(bad == "" && n >= 50, "a text is found exactly if it is in the list", "ContainsString", bad, n)
	}
}

func ruleCollector(c *Check) {
	m := c.refMachine()
	if m == nil {
		return
	}
	c.stringLists()
	k, ctx := Sym("k"), Sym("ctx")
	a, b, d := Sym("a"), Sym("b"), Sym("d")
	syms := map[*V]bool{a: true, b: true, d: true}
	var kcb *ssa.Function
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) == modPath+"/"+refK && f.Signature.Recv() != nil && f.Synthetic == "" && typeName(deref(f.Signature.Recv().Type())) == refK+".Keeper" &&
			f.Signature.Params().Len() == 3 && f.Signature.Params().At(0).Type().String() == "string" && f.Signature.Params().At(2).Type().String() == "string" {
			kcb = f
		}
	}
	if !c.oblige(kcb != nil, "anchor", "the handlers of events", "") {
		return
	}
	opts := func(st *State, cbFails bool) pathOpts {
		o := pathOpts{st: st, unroll: 6, reads: true, hyp: func(x *Exec, t *V, st *State) (bool, bool) {
			if t.is("isnil") && unbytes(stripIface(t.args[0])).is("encode") {
				return false, true
			}
			if t.is("eq") && len(t.args) == 2 {
				l, r := unbytes(stripIface(t.args[0])), unbytes(stripIface(t.args[1]))
				if syms[l] && syms[r] {
					return l == r, true
				}
			}
			if t.hasOp("call:") && strings.HasSuffix(t.op, "bytes.Equal") && len(t.args) == 2 {
				l, r := unbytes(stripIface(t.args[0])), unbytes(stripIface(t.args[1]))
				if syms[l] && syms[r] {
					return l == r, true
				}
			}
			return wellCoded(x, t, st)
		}}
		o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			switch {
			case strings.HasPrefix(ci.Name, "sort."):
				return true, []Outcome{{vals: nil, st: st}}
			case ci.Fn == kcb:
				var ev []*V
				for _, q := range ci.Args {
					ev = append(ev, stripIface(x.snap(st, q)))
				}
				addTrace(st, Ev{Kind: "fired", Args: ev, At: ci.Instr})
				if cbFails {
					return true, []Outcome{{vals: []*V{rawApp("err:hook", ci.Site)}, st: st}}
				}
				return true, []Outcome{{vals: []*V{vNil}, st: st}}
			}
			return false, nil
		}
		return o
	}
	bu := rawApp("alloc", Sym("collector"))
	type op struct {
		f    *ssa.Function
		args []*V
	}
	begin := func() *State {
		st := newState()
		for _, p := range c.paths(m.newBu, []*V{k, ctx}, opts(st, false)) {
			v := p.O.vals[0]
			if v.k == KAddr {
				bu = v.args[0]
			}
			return p.O.st
		}
		return st
	}
	// run performs the operations one after another; result: what the last one returns on its only path, and all events
	run := func(cbFails bool, ops ...op) (last *Path, why string) {
		st := begin()
		for i, o := range ops {
			var next *Path
			n := 0
			for _, p := range c.paths(o.f, append([]*V{Addr(bu)}, o.args...), opts(st, cbFails)) {
				if p.O.panic || !p.Ok && !(cbFails && i == len(ops)-1) {
					continue
				}
				n++
				next = p
			}
			if n != 1 {
				return nil, fmt.Sprint("operation ", i+1, " takes ", n, " ways")
			}
			st = next.O.st
			last = next
		}
		return last, ""
	}
	r1, r2, r3 := Sym("record1"), Sym("record2"), Sym("record3")
	set := func(acc, r *V) op { return op{m.set, []*V{acc, r}} }
	get := func(acc *V) op { return op{m.get, []*V{acc}} }
	commit := op{m.commit, nil}
	cb := func(e, acc *V) op { return op{m.addCb, []*V{e, acc}} }
	stored := func(acc *V) func(v *V) bool {
		return func(v *V) bool {
			return v.is("decode") && mention(v, acc) && v.mentions(func(y *V) bool { return y.hasOp("call:") && strings.HasSuffix(y.op, "KVStore.Get") }) && !mention(v, r1) && !mention(v, r2)
		}
	}
	is := func(r *V) func(v *V) bool { return func(v *V) bool { return v == r } }
	for i, t := range []struct {
		what string
		want func(v *V) bool
		ops  []op
	}{
		{"nothing set", stored(a), []op{get(a)}},
		{"set", is(r1), []op{set(a, r1), get(a)}},
		{"set twice", is(r2), []op{set(a, r1), set(a, r2), get(a)}},
		{"another set", stored(a), []op{set(b, r1), get(a)}},
		{"both set", is(r1), []op{set(a, r1), set(b, r2), get(a)}},
		{"both set, the other one", is(r2), []op{set(a, r1), set(b, r2), get(b)}},
		{"both set, one again", is(r3), []op{set(a, r1), set(b, r2), set(a, r3), get(a)}},
		{"both set, the other again", is(r1), []op{set(a, r1), set(b, r2), set(b, r3), get(a)}},
		{"three set", is(r2), []op{set(a, r1), set(b, r2), set(d, r3), get(b)}},
	} {
		p, why := run(false, t.ops...)
		got := "nothing"
		ok := false
		if p != nil {
			v := plain(p.X.snap(p.O.st, p.O.vals[0]))
			got = v.str(6)
			ok = t.want(v)
		}
		c.oblige(ok, "a record read is the one set last, or else the one stored", fmt.Sprint(i, " ", t.what), why, " got ", got)
	}
	e1, e2 := Str("event1"), Str("event2")
	for i, t := range []struct {
		ops   []op
		recs  map[*V]*V
		fired [][2]*V
		fails bool
	}{
		{[]op{commit}, map[*V]*V{}, nil, false},
		{[]op{set(a, r1), commit}, map[*V]*V{a: r1}, nil, false},
		{[]op{set(a, r1), set(b, r2), set(d, r3), commit}, map[*V]*V{a: r1, b: r2, d: r3}, nil, false},
		{[]op{set(a, r1), set(b, r2), set(a, r3), commit}, map[*V]*V{a: r3, b: r2}, nil, false},
		{[]op{set(a, r1), cb(e1, a), commit}, map[*V]*V{a: r1}, [][2]*V{{e1, a}}, false},
		{[]op{set(a, r1), cb(e1, a), cb(e2, a), cb(e2, b), commit}, map[*V]*V{a: r1}, [][2]*V{{e1, a}, {e2, a}, {e2, b}}, false},
		{[]op{cb(e1, a), cb(e1, a), cb(e1, b), cb(e2, b), set(b, r2), commit}, map[*V]*V{b: r2}, [][2]*V{{e1, a}, {e1, b}, {e2, b}}, false},
		{[]op{set(a, r1), cb(e1, a), commit}, map[*V]*V{a: r1}, [][2]*V{{e1, a}}, true},
	} {
		p, why := run(t.fails, t.ops...)
		what := fmt.Sprint("case ", i)
		if !c.oblige(p != nil, "what was collected is stored", what, why) {
			continue
		}
		recs := map[*V]*V{}
		bad := ""
		fired := map[[2]*V]int{}
		for _, e := range p.Ev {
			switch e.Kind {
			case "Set":
				if len(fired) > 0 {
					bad = "an event is announced before all records are stored"
				}
				v := e.Args[1]
				if v.is("encode") {
					v = v.args[0]
				}
				recs[unbytes(e.Args[0])] = plain(v)
			case "Delete":
				bad = "deletes"
			case "fired":
				fired[[2]*V{e.Args[1], e.Args[3]}]++
			}
		}
		for x, v := range t.recs {
			if recs[x] != v {
				bad += fmt.Sprint(" ", x, " is stored as ", recs[x])
			}
			delete(recs, x)
		}
		if len(recs) > 0 {
			bad += " stores something else"
		}
		c.oblige(bad == "", "what was collected is stored", what, bad)
		bad = ""
		for _, f := range t.fired {
			if fired[f] != 1 {
				bad += fmt.Sprint(" ", f[0], " of ", f[1], " ", fired[f], " times")
			}
			delete(fired, f)
		}
		if len(fired) > 0 {
			bad += " something else is announced"
		}
		c.oblige(bad == "", "every event collected is announced, repeated ones in a row once", what, bad)
		if t.fails {
			c.oblige(!p.Ok, "a handler that fails fails the operation", what)
		}
	}
	// single records
	for _, f := range []*ssa.Function{m.kset} {
		n := 0
		for _, p := range c.paths(f, []*V{k, ctx, a, r1}, opts(newState(), false)) {
			if !p.ok() {
				continue
			}
			n++
			sets := 0
			ok := true
			for _, e := range p.Ev {
				if e.Kind == "Set" {
					sets++
					ok = ok && unbytes(e.Args[0]) == a && e.Args[1].is("encode") && plain(e.Args[1].args[0]) == r1
				} else if e.Kind == "Delete" {
					ok = false
				}
			}
			c.oblige(sets == 1 && ok, "a record is stored as it is set", p.exit(c), sets)
		}
		c.oblige(n > 0, "reachable", shortFn(f), n)
	}
	n := 0
	for _, p := range c.paths(m.kget, []*V{k, ctx, a}, opts(newState(), false)) {
		if !p.ok() {
			continue
		}
		n++
		v := stripIface(p.X.snap(p.O.st, p.O.vals[0]))
		c.oblige(stored(a)(v), "a record is read as it is stored", p.exit(c), v.str(6))
	}
	c.oblige(n > 0, "reachable", shortFn(m.kget), n)
	// the handlers of an event
	n = 0
	hooks := List(rawApp("func", Sym("hook1")), rawApp("func", Sym("hook2")))
	_ = hooks
	o := opts(newState(), false)
	o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
		if strings.HasPrefix(ci.Name, "dynamic:") {
			addTrace(st, Ev{Kind: "hook", Args: snapAll(x, st, ci.Args), At: ci.Instr})
			s2 := st.clone()
			addTrace(s2, Ev{Kind: "hookfails", At: ci.Instr})
			return true, []Outcome{{vals: []*V{vNil}, st: st}, {vals: []*V{rawApp("err:hook", ci.Site)}, st: s2}}
		}
		return false, nil
	}
	most := 0
	for _, p := range c.paths(kcb, []*V{k, e1, ctx, a}, o) {
		if p.O.panic {
			continue
		}
		fails := false
		ran := map[*V]bool{}
		good := true
		for _, e := range p.Ev {
			if e.Kind == "hookfails" {
				fails = true
			}
			if e.Kind == "hook" {
				ran[e.Args[0]] = true
				good = good && e.Args[1] == ctx && e.Args[2] == a && mention(e.Args[0], e1)
			}
		}
		known := 0
		for f, v := range p.facts() {
			if v && f.is("lt") {
				if _, ok := intOf(f.args[0]); ok && f.args[1].is("len") {
					known++
				}
			}
		}
		n++
		c.oblige(good, "a handler is told of the account", p.exit(c), len(ran))
		if fails {
			c.oblige(!p.Ok, "a handler that fails fails the announcement", p.exit(c))
			continue
		}
		if len(ran) > most {
			most = len(ran)
		}
		c.oblige(p.Ok && len(ran) == known, "every handler of an event is told", p.exit(c), len(ran), " of ", known)
	}
	c.oblige(n > 2 && most >= 2, "paths with several handlers are found", shortFn(kcb), n, most)
}

// plain is the value without what the path knows of where it is kept.
func plain(v *V) *V {
	for {
		w := thaw(stripIface(v))
		if w.is("deref") || w.is("alloc") && len(w.args) == 1 {
			w = w.args[0]
		}
		if w.is("decode") && len(w.args) == 1 && unbytes(w.args[0]).is("encode") {
			w = unbytes(w.args[0]).args[0]
		}
		if w == v {
			return v
		}
		v = w
	}
}
