package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R04", ruleReferralTasks)
}

// reorder decides a comparison of a term that mentions x with one that does not: less tells whether x is the smaller one.
func reorder(a *V, is func(*V) bool, less bool) (bool, bool) {
	if !a.is("lt") {
		return false, false
	}
	l, r := a.args[0].mentions(is), a.args[1].mentions(is)
	switch {
	case l && !r:
		return less, true
	case r && !l:
		return !less, true
	}
	return false, false
}

// months is how many months after the block the time is (0: it is no such time).
func months(t *V) int64 {
	t = stripIface(t)
	if !t.is("call:(time.Time).Add") || t.args[0].op != "blocktime" {
		return 0
	}
	l := linOf(t.args[1])
	if len(l) != 1 {
		return 0
	}
	for u, n := range l {
		if u != nil && strings.HasSuffix(u.op, ".OneMonth") {
			return n
		}
	}
	return 0
}

func isNilV(v *V) bool { return v != nil && (v.k == KNil || v.k == KZero) }

// taskTime is the value a pointer to a time stands for.
func taskTime(v *V) *V {
	v = stripIface(v)
	if v.is("deref") {
		return v.args[0]
	}
	return v
}

func ruleReferralTasks(c *Check) {
	m := c.refMachine()
	if m == nil {
		return
	}
	k, ctx, acc, parent := Sym("k"), Sym("ctx"), Sym("acc"), Sym("parent")
	empty := Str("")
	comp, ban := c.hookName(schedK, refK, "Keeper", "PerformCompression"), c.hookName(schedK, refK, "Keeper", "PerformBanish")
	m2 := func(n string) *ssa.Function { return c.method(refK, "Keeper", n) }
	var kcb *ssa.Function
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) == modPath+"/"+refK && f.Signature.Recv() != nil && f.Synthetic == "" && typeName(deref(f.Signature.Recv().Type())) == refK+".Keeper" &&
			f.Signature.Params().Len() == 3 && f.Signature.Params().At(0).Type().String() == "string" && f.Signature.Params().At(2).Type().String() == "string" {
			kcb = f
		}
	}
	if !c.oblige(kcb != nil && comp != nil && ban != nil, "anchor", "the handlers of events", kcb) {
		return
	}
	dust := func(v *V) bool { return strings.HasSuffix(v.op, ".DustDelegation") }
	isTime := func(v *V) bool { return v.op == "blocktime" }
	rec := func(base *V, fs map[string]*V) *V {
		for _, n := range []string{"Referrer", "Active", "Banished", "BanishmentAt", "CompressionAt", "Referrals", "ActiveReferrals"} {
			if fs[n] != nil {
				base = update(base, m.sel(n), fs[n])
			}
		}
		return base
	}
	type F = map[string]*V
	opts := func(fs F, hyp func(a *V) (bool, bool)) pathOpts {
		m.init = map[*V]*V{acc: rec(recSym(acc), fs), parent: rec(recSym(parent), F{"Referrer": empty})}
		o := m.opts(func(a *V) (bool, bool) {
			if hyp != nil {
				if v, ok := hyp(a); ok {
					return v, ok
				}
			}
			if strings.HasSuffix(a.op, "(time.Time).IsZero") && a.mentions(isTime) {
				return false, true
			}
			if a.is("eq") && (a.args[0] == acc || a.args[0] == parent || a.args[0] == empty) && (a.args[1] == acc || a.args[1] == parent || a.args[1] == empty) && a.args[0] != a.args[1] {
				return false, true
			}
			return false, false
		})
		base := o.onCall
		o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if ci.Fn == kcb {
				addTrace(st, Ev{Kind: "fired", Args: snapAll(x, st, ci.Args[1:]), At: ci.Instr})
				return true, []Outcome{{vals: []*V{vNil}, st: st}}
			}
			if ok, r := base(x, ci, st); ok {
				return ok, r
			}
			return listOps(x, ci, st)
		}
		return o
	}
	changeOf := func(p *Path, a *V) *change {
		for _, ch := range m.changes(p) {
			if ch.acc == a {
				return ch
			}
		}
		return nil
	}
	// tasks of the path: by hook, the times scheduled and deleted for the account
	tasks := func(p *Path, hook *V) (sched, gone []*V, other bool) {
		for _, e := range schedCalls(p.Ev) {
			if len(e.Args) < 5 || e.Args[3] != hook {
				continue
			}
			if unbytes(e.Args[4]) != acc {
				other = true
			} else if e.Fn.Name() == "ScheduleTask" {
				sched = append(sched, taskTime(e.Args[2]))
			} else {
				gone = append(gone, taskTime(e.Args[2]))
			}
		}
		return
	}
	total := 0
	rule := "the times on record and the tasks of the account agree"
	// run applies the general rule to every path that succeeds, and then the particular one.
	run := func(what string, f *ssa.Function, args []*V, o pathOpts, more func(p *Path, at func(string) *V, ch *change)) {
		if f == nil {
			return
		}
		seen := 0
		for _, p := range c.paths(f, args, o) {
			if !p.ok() {
				continue
			}
			seen++
			ch := changeOf(p, acc)
			old := m.before(p, acc)
			at := func(n string) *V {
				if ch == nil {
					return m.field(old, n)
				}
				return m.field(ch.nv, n)
			}
			for _, t := range []struct {
				field string
				hook  *V
				n     int64
			}{{"CompressionAt", comp, 2}, {"BanishmentAt", ban, 1}} {
				sched, gone, other := tasks(p, t.hook)
				was, now := m.field(old, t.field), at(t.field)
				bad := ""
				wasNil, known := p.known(mkIsNil(was))
				if isNilV(was) {
					wasNil, known = true, true
				}
				nowNil, nk := p.known(mkIsNil(now))
				if isNilV(now) {
					nowNil, nk = true, true
				}
				switch {
				case other:
					bad = "a task of another account"
				case now == was:
					if len(sched)+len(gone) > 0 {
						bad = "tasks change, the record does not"
					}
				case nk && nowNil:
					if len(sched) > 0 {
						bad = "a task is scheduled that is not on record"
					}
					if t.field == "BanishmentAt" && !(known && wasNil) && f != m2("Banish") && f != m2("ComeBack") && f != m2("AppendChild") && (len(gone) != 1 || gone[0] != taskTime(was)) {
						bad = "the task for the time erased is not removed"
					}
				default:
					if months(taskTime(now)) != t.n {
						bad = "the time is not " + itoa(int(t.n)) + " month(s) after the block: " + now.str(6)
					}
					top := at("Referrer") == empty
					switch {
					case f == m2("AppendChild") || top:
						if len(sched) > 0 && (top || len(sched) != 1 || months(sched[0]) != t.n) {
							bad = "scheduled otherwise than recorded"
						}
					case len(sched) != 1 || months(sched[0]) != t.n:
						bad = itoa(len(sched)) + " tasks scheduled for the time on record"
					}
				}
				c.oblige(bad == "", rule, what+": "+t.field, bad, "; ", p.exit(c))
			}
			if ch != nil && (at("Active") != m.field(old, "Active") || at("CompressionAt") != m.field(old, "CompressionAt") || at("BanishmentAt") != m.field(old, "BanishmentAt")) {
				c.oblige(ch.saved, "the record with the times is stored", what, p.exit(c))
			}
			if more != nil {
				more(p, at, ch)
			}
		}
		total += seen
		c.oblige(seen > 0, "a path that succeeds is found", what)
	}
	open := func(a *V) (bool, bool) {
		if strings.HasSuffix(a.op, ".RegistrationClosed") && a.hasOp("call:") {
			return false, true
		}
		return false, false
	}
	none := List()
	noRefs := F{"Referrer": parent, "Referrals": none, "ActiveReferrals": none}
	with := func(b F, kv ...interface{}) F {
		r := F{}
		for n, v := range b {
			r[n] = v
		}
		for i := 0; i < len(kv); i += 2 {
			r[kv[i].(string)] = kv[i+1].(*V)
		}
		return r
	}
	var compared []*V
	// dusty: what the account has delegated is (not) above the dust limit
	dusty := func(yes bool) func(a *V) (bool, bool) {
		return func(a *V) (bool, bool) {
			v, ok := reorder(a, dust, !yes)
			if ok {
				compared = append(compared, a)
			}
			return v, ok
		}
	}
	both := func(hs ...func(a *V) (bool, bool)) func(a *V) (bool, bool) {
		return func(a *V) (bool, bool) {
			for _, h := range hs {
				if v, ok := h(a); ok {
					return v, ok
				}
			}
			return false, false
		}
	}
	comes := func(p *Path, at func(string) *V, w bool, what string) {
		v := at("BanishmentAt")
		n, ok := p.known(mkIsNil(v))
		c.oblige(isNilV(v) == !w || ok && n == !w, what, p.exit(c), v.str(5))
	}
	// a new account
	run("a new account", m2("AppendChild"), []*V{k, ctx, parent, acc}, opts(nil, open), func(p *Path, at func(string) *V, ch *change) {
		c.oblige(months(taskTime(at("CompressionAt"))) == 2, "a new account is due for compression in two months", p.exit(c))
	})
	// activity
	run("activation", m2("SetActive"), []*V{k, ctx, acc, Bool(true), Sym("check")}, opts(with(noRefs, "Active", Bool(false)), nil), func(p *Path, at func(string) *V, ch *change) {
		c.oblige(isNilV(at("CompressionAt")), "an active account is not due for compression", p.exit(c), at("CompressionAt").str(5))
		v := at("BanishmentAt")
		n, ok := p.known(mkIsNil(v))
		c.oblige(isNilV(v) || ok && n, "an active account is not due for banishment", p.exit(c), v.str(5))
	})
	run("deactivation", m2("SetActive"), []*V{k, ctx, acc, Bool(false), Sym("check")}, opts(with(noRefs, "Active", Bool(true)), nil), func(p *Path, at func(string) *V, ch *change) {
		s, _, _ := tasks(p, comp)
		c.oblige(len(s) == 1 && months(s[0]) == 2, "an account that is no longer active is due for compression in two months", p.exit(c), len(s))
	})
	run("deactivation at the top", m2("SetActive"), []*V{k, ctx, acc, Bool(false), Sym("check")}, opts(with(noRefs, "Active", Bool(true), "Referrer", empty), nil), func(p *Path, at func(string) *V, ch *change) {
		s, _, _ := tasks(p, comp)
		c.oblige(len(s) == 0, "a top level account is never compressed", p.exit(c), len(s))
	})
	for _, on := range []bool{true, false} {
		run("activity as it is", m2("SetActive"), []*V{k, ctx, acc, Bool(on), Sym("check")}, opts(with(noRefs, "Active", Bool(on)), nil), func(p *Path, at func(string) *V, ch *change) {
			c.oblige(len(schedCalls(p.Ev)) == 0 && (ch == nil || ch.nv == ch.old || !ch.saved), "activity that does not change changes nothing", p.exit(c))
		})
	}
	// compression
	for _, yes := range []bool{true, false} {
		run("compression", m2("Compress"), []*V{k, ctx, acc}, opts(noRefs, dusty(yes)), func(p *Path, at func(string) *V, ch *change) {
			c.oblige(isNilV(at("CompressionAt")), "a compressed account is not due for compression", p.exit(c))
			if yes {
				comes(p, at, true, "a compressed account with no delegation is due for banishment")
			} else {
				c.oblige(at("BanishmentAt") == m.field(m.before(p, acc), "BanishmentAt"), "a delegation saves a compressed account from banishment", p.exit(c))
			}
		})
	}
	c.never("compressions that are not allowed are refused", "the account is at the top", m2("Compress"), []*V{k, ctx, acc}, opts(F{"Referrer": empty}, nil))
	// a changed balance
	moved := func(p *Path, ch *change) bool { return ch != nil && !p.zeroed(m.delta(p, ch, "Delegated", 0)).zero() }
	idle := F{"Referrer": parent, "Active": Bool(false), "Banished": Bool(false), "BanishmentAt": vNil, "CompressionAt": vNil}
	ob := []*V{k, ctx, acc}
	at := Sym("time of banishment")
	for _, t := range []struct {
		what string
		rec  F
		hyp  func(a *V) (bool, bool)
		want int // of BanishmentAt: 1 set, 0 as it was, -1 cleared
	}{
		{"nothing is delegated any more", idle, dusty(true), 1},
		{"nothing is delegated any more, the compression is over", with(idle, "CompressionAt", Sym("ptr")), both(dusty(true), func(a *V) (bool, bool) { return reorder(a, isTime, false) }), 1},
		{"nothing is delegated any more, the compression is to come", with(idle, "CompressionAt", Sym("ptr")), both(dusty(true), func(a *V) (bool, bool) { return reorder(a, isTime, true) }), 0},
		{"the account is active", with(idle, "Active", Bool(true)), dusty(true), 0},
		{"the account is active, something is delegated", with(idle, "Active", Bool(true)), dusty(false), 0},
		{"the account is at the top", with(idle, "Referrer", empty), dusty(true), 0},
		{"the account is banished", with(idle, "Banished", Bool(true)), dusty(true), 0},
		{"the banishment is set already", with(idle, "BanishmentAt", rawApp("alloc", at)), dusty(true), 0},
		{"something is delegated", with(idle, "BanishmentAt", rawApp("alloc", at)), dusty(false), -1},
		{"something is delegated, no banishment is due", idle, dusty(false), 0},
	} {
		t := t
		if v := t.rec["CompressionAt"]; v == Sym("ptr") {
			t.rec["CompressionAt"] = rawApp("alloc", Sym("time of compression"))
		}
		nonNil := func(a *V) (bool, bool) {
			if a.is("isnil") && stripIface(a.args[0]).is("alloc") {
				return false, true
			}
			return false, false
		}
		n := 0
		run("a changed balance: "+t.what, m2("OnBalanceChanged"), ob, opts(t.rec, both(nonNil, t.hyp, open)), func(p *Path, at func(string) *V, ch *change) {
			if !moved(p, ch) {
				return
			}
			n++
			old, now := m.field(m.before(p, acc), "BanishmentAt"), at("BanishmentAt")
			ok := false
			switch t.want {
			case 1:
				ok = now != old && !isNilV(now)
			case 0:
				ok = now == old
			case -1:
				ok = isNilV(now)
			}
			c.oblige(ok, "an account with no delegation and no activity is due for banishment, unless it delegates in time", t.what, p.exit(c), now.str(5))
		})
		c.oblige(n > 0, "a change of the delegation is found", t.what, n)
	}
	// banishing
	bn := m2("Banish")
	ready := F{"Referrer": parent, "Active": Bool(false), "Banished": Bool(false)}
	no := "banishments that are not allowed are refused"
	c.never(no, "the account is at the top", bn, ob, opts(with(ready, "Referrer", empty), dusty(true)))
	c.never(no, "the account is active", bn, ob, opts(with(ready, "Active", Bool(true)), dusty(true)))
	c.never(no, "something is delegated", bn, ob, opts(ready, dusty(false)))
	c.never(no, "the account is banished", bn, ob, opts(with(ready, "Banished", Bool(true)), dusty(true)))
	for _, a := range compared {
		has := func(t string) bool {
			return a.mentions(func(y *V) bool { return y == Str(t) || strings.HasPrefix(y.op, "field:") && strings.HasSuffix(y.op, "."+t) })
		}
		c.oblige((has("Delegated") || has("uartrd")) && !has("Coins") && !has("uartr") && !has("uartrr"), "it is the delegated coins that are held against the dust limit", a.str(8))
	}
	evBan := c.hookName(refK, delK, "Keeper", "OnBanished")
	run("banishing", bn, ob, opts(ready, dusty(true)), func(p *Path, at func(string) *V, ch *change) {
		n := 0
		for _, e := range p.Ev {
			if e.Kind == "fired" && e.Args[1] == evBan && e.Args[3] == acc || e.Kind == "fired" && e.Args[0] == evBan && e.Args[2] == acc {
				n++
			}
			if e.Kind == "callback" && e.Args[0] == evBan && e.Args[1] == acc {
				n++
			}
		}
		c.oblige(n == 1, "a banishment is announced once", p.exit(c), n)
		for _, f := range []string{"CompressionAt", "BanishmentAt", "StatusDowngradeAt"} {
			c.oblige(isNilV(at(f)), "nothing is due for a banished account", f, p.exit(c))
		}
		st := at("Status")
		c.oblige(isZeroV(st) || st.k == KZero, "a banished account has no status", p.exit(c), st.str(4))
	})
	run("coming back", m2("ComeBack"), ob, opts(F{"Referrer": parent, "Banished": Bool(true)}, open), func(p *Path, at func(string) *V, ch *change) {
		for _, f := range []string{"CompressionAt", "BanishmentAt"} {
			c.oblige(isNilV(at(f)), "nothing is due for an account that comes back", f, p.exit(c))
		}
	})
	run("transition", m2("AffirmTransition"), ob, opts(F{"Referrer": Sym("from"), "Transition": parent}, open), nil)
	c.oblige(total >= 20, "enough operations are analysed", refK, total)
	m.init = map[*V]*V{}

	// the handlers
	cm := m2("Compress")
	pc := m2("PerformCompression")
	for _, t := range []struct {
		what string
		nilP bool
		late bool
		n    int
	}{{"none is due", true, false, 0}, {"it is due", false, true, 1}, {"it is not due yet", false, false, 0}} {
		t := t
		m.init = map[*V]*V{acc: recSym(acc)}
		o := m.opts(func(a *V) (bool, bool) {
			if a.is("isnil") && a.args[0].hasOp("field:") && mention(a, recSym(acc)) {
				return t.nilP, true
			}
			return reorder(a, isTime, !t.late)
		})
		o.watch = set(cm)
		inl := o.inline
		o.inline = func(f *ssa.Function) bool { return f != cm && inl(f) }
		o.fails = true
		n := 0
		for _, p := range c.paths(pc, []*V{k, ctx, acc, Sym("time")}, o) {
			if p.O.panic {
				continue
			}
			n++
			calls1 := 0
			good := true
			for _, e := range p.Ev {
				if calls(cm)(e) {
					calls1++
					good = good && unbytes(e.Args[2]) == acc
				}
			}
			c.oblige(calls1 == t.n && good, "a compression happens exactly if it is still due", t.what, p.exit(c), calls1)
		}
		c.oblige(n > 0, "a path of the handler is found", t.what)
	}
	m.init = map[*V]*V{}
	c.handsOver("the handler banishes its account", m2("PerformBanish"), []*V{k, ctx, Sym("data"), Sym("time")}, bn, func(a []*V) bool { return unbytes(a[2]) == Sym("data") })
	c.closedAccounts(m)
	c.schedulesNew(m2("AppendChild"), m2("ScheduleCompression"), comp)
}

// closedAccounts: whom nobody can register under.
func (c *Check) closedAccounts(m *recMachine) {
	f := c.method(refT, "Info", "RegistrationClosed")
	if f == nil {
		return
	}
	isTime := func(v *V) bool { return v.op == "blocktime" }
	for i := 0; i < 32; i++ {
		top, banished, active, none, late := i&1 > 0, i&2 > 0, i&4 > 0, i&8 > 0, i&16 > 0
		if none && late {
			continue
		}
		r := update(Sym("info"), m.sel("Banished"), Bool(banished))
		r = update(r, m.sel("Active"), Bool(active))
		if top {
			r = update(r, m.sel("Referrer"), Str(""))
		} else {
			r = update(r, m.sel("Referrer"), Sym("parent"))
		}
		at := rawApp("alloc", Sym("time of compression"))
		if none {
			r = update(r, m.sel("CompressionAt"), vNil)
		} else {
			r = update(r, m.sel("CompressionAt"), at)
		}
		month := true
		hyp := func(x *Exec, a *V, st *State) (bool, bool) {
			if a.is("isnil") && mention(a, at) {
				return false, true
			}
			if a.is("eq") && (a.args[0] == Sym("parent") || a.args[1] == Sym("parent")) {
				return false, true
			}
			if v, ok := reorder(a, isTime, !late); ok {
				month = month && a.mentions(func(y *V) bool { return strings.HasSuffix(y.op, ".OneMonth") })
				return v, ok
			}
			return false, false
		}
		want := !top && (banished || !active && (none || late))
		n, bad := 0, ""
		for _, p := range c.paths(f, []*V{r, Sym("ctx"), Sym("scheduler")}, pathOpts{inline: samePkgOf(modPath + "/" + refT), hyp: hyp}) {
			if p.O.panic || len(p.O.vals) == 0 {
				continue
			}
			n++
			v := p.O.vals[0]
			b, ok := boolOf(v)
			if !ok {
				b, ok = p.known(v)
			}
			if !ok {
				b, ok = hyp(nil, v, nil)
			}
			if !ok || b != want {
				bad = "decides " + v.str(5)
			}
		}
		c.oblige(bad == "" && n > 0 && month, "registration is closed exactly under the banished and those soon to be compressed", "case "+itoa(i), bad, month)
	}
}

// schedulesNew: whoever adds an account schedules its compression for the time that is put on record.
func (c *Check) schedulesNew(add, sched *ssa.Function, hook *V) {
	if add == nil || sched == nil {
		return
	}
	n := 0
	for _, p := range c.paths(sched, []*V{Sym("k"), Sym("ctx"), Sym("acc"), Sym("time")}, pathOpts{watchI: inPkg(schedK), hyp: wellCoded}) {
		s := schedCalls(p.Ev)
		n++
		c.oblige(len(s) == 1 && s[0].Fn.Name() == "ScheduleTask" && s[0].Args[2] == Sym("time") && s[0].Args[3] == hook && unbytes(s[0].Args[4]) == Sym("acc"),
			"a compression is scheduled for the account at the time", p.exit(c), len(s))
	}
	c.oblige(n > 0, "reachable", "ScheduleCompression", "")
	k := 0
	reach := c.P.reaching(set(add))
	var fs []*ssa.Function
	for f := range reach {
		if fnPkgPath(f) != modPath+"/"+refK && !isAppPkg(f) && strings.HasPrefix(fnPkgPath(f), modPath+"/x/") && strings.HasSuffix(fnPkgPath(f), "/keeper") && f.Synthetic == "" &&
			f.Signature.Recv() != nil && strings.HasSuffix(typeName(deref(f.Signature.Recv().Type())), ".Keeper") && f.Object() != nil && f.Object().Exported() {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		own := samePkgOf(fnPkgPath(f))
		cp := c.method(refK, "Keeper", "CompressionPeriod")
		args := []*V{}
		for _, q := range f.Params {
			args = append(args, Sym("arg:"+q.Name()))
		}
		for _, p := range c.paths(f, args, pathOpts{inline: func(g *ssa.Function) bool { return own(g) || g == cp }, watch: set(add, sched), hyp: wellCoded, fails: true}) {
			if !p.ok() {
				continue
			}
			var who *V
			ok := true
			for _, e := range p.Ev {
				if calls(add)(e) {
					ok = ok && who == nil
					who = e.Args[3]
				}
				if calls(sched)(e) && who != nil && e.Args[2] == who && months(e.Args[3]) == 2 {
					who = nil
				}
			}
			k++
			c.oblige(ok && who == nil, "a new account's compression is scheduled", shortFn(f), p.exit(c))
		}
	}
	c.oblige(k > 0, "the creation of accounts is found", refK, k)
}
