package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A05: what an operation announces is what it did.

func init() { register("A05", ruleAnnounced) }

// announcedBy: the messages the call announces.
func announcedBy(ci *CallInfo) []*V {
	n := ci.Name
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	switch n {
	case "EmitEvent", "EmitTypedEvent":
	case "EmitEvents", "EmitTypedEvents":
	default:
		return nil
	}
	if ci.Fn != nil && fnPkgPath(ci.Fn) == modPath+"/util" || strings.HasPrefix(n, "EmitTyped") {
		as := []*V{}
		for _, a := range ci.Args[1:] {
			if a.k == KList {
				as = append(as, a.args...)
			} else if !isNilV(a) {
				as = append(as, a)
			}
		}
		return as
	}
	return nil
}

func announcement(x *Exec, st *State, a *V, ci *CallInfo) Ev {
	e := Ev{Kind: "announce", At: ci.Instr}
	if a.k == KIface {
		e.Name = typeName(deref(a.t))
	}
	v := stripIface(a)
	if v.k == KAddr || v.k == KApp {
		v = x.load(st, v)
	}
	e.Args = []*V{x.snap(st, v)}
	return e
}

// announcements of a type on a path.
func (p *Path) announcements(name string) (r []*V) {
	for _, e := range p.Ev {
		if e.Kind == "announce" && strings.HasSuffix(e.Name, "."+name) {
			r = append(r, e.Args[0])
		}
	}
	return
}

const kAnn = "what is announced is what was done"

type announcer struct {
	c    *Check
	rel  string // package of the events
	what string
	n    int
}

func (a *announcer) typ(ev string) types.Type { return a.c.P.typeOf(a.rel, ev) }

// is: the path announces the event that many times, with the fields as they should be.
func (a *announcer) is(p *Path, ev string, n int, fields map[string]func(v *V) bool) {
	a.n++
	as := p.announcements(ev)
	if len(as) != n {
		a.c.oblige(false, kAnn, a.what, ev, fmt.Sprint(" announced ", len(as), " times, due ", n), p.exit(a.c))
		return
	}
	t := a.typ(ev)
	if t == nil {
		a.c.oblige(false, "anchor", ev, "no such event")
		return
	}
	for _, e := range as {
		for f, good := range fields {
			v := fieldVal(e, t, f)
			ok := v != nil && good(stripIface(v))
			a.c.oblige(ok, kAnn, a.what, ev+"."+f, v, p.exit(a.c))
		}
	}
}

func exactly(w *V) func(v *V) bool {
	return func(v *V) bool { return v == stripIface(w) }
}

// linear: the number is that sum.
func linear(l Lin) func(v *V) bool {
	return func(v *V) bool {
		return polyOf(v).eq(linPoly(l))
	}
}

func linPoly(l Lin) poly {
	r := poly{}
	for t, k := range l {
		r = r.add(polyOf(t), k)
	}
	return r
}

func ruleAnnounced(c *Check) {
	c.announcedCoins()
	c.announcedVotes()
	c.announcedProfile()
	c.announcedReferral()
	c.announcedNoding()
}

func (c *Check) announcedCoins() {
	k, ctx, acc := Sym("keeper"), Sym("ctx"), Sym("acc")
	send := c.method(bankK, "BaseSendKeeper", "SendCoins")
	if send != nil {
		a := &announcer{c: c, rel: "x/bank/types", what: "SendCoins"}
		from, to, amt := Sym("from"), Sym("to"), Sym("amount")
		for _, p := range c.paths(send, []*V{k, ctx, from, to, amt}, pathOpts{announced: true, inline: func(f *ssa.Function) bool { return false }}) {
			if p.Ok && !p.O.panic {
				a.is(p, "EventTransfer", 1, map[string]func(*V) bool{"Sender": exactly(from), "Recipient": exactly(to), "Amount": exactly(amt)})
			}
		}
		c.oblige(a.n > 0, "reachable", a.what, "")
	}
	del, rev, pay, acr := c.delegatingOps()
	if del == nil || rev == nil || pay == nil || acr == nil {
		return
	}
	amt, time := Sym("amount"), Sym("time")
	base := []*V{k, ctx, acc}
	for _, e := range []struct {
		f      *ssa.Function
		args   []*V
		ev     string
		denom  string
		onlyIf bool // no event if nothing is moved
	}{
		{del, append(append([]*V{}, base...), amt), "EventDelegate", "uartrd", false},
		{rev, append(append([]*V{}, base...), amt, Bool(false)), "EventFreeze", "uartrr", true},
		{rev, append(append([]*V{}, base...), amt, Bool(true)), "EventFreeze", "uartrr", true},
		{pay, append(append([]*V{}, base...), time), "EventUndelegate", "uartrr", true},
		{acr, append(append([]*V{}, base...), time), "EventAccrue", "uartr", true},
	} {
		o := c.delOpt(nil)
		o.announced = true
		a := &announcer{c: c, rel: delT, what: shortFn(e.f)}
		for _, p := range c.paths(e.f, e.args, o) {
			if !p.Ok || p.O.panic {
				continue
			}
			ms, _ := p.moves()
			sum, fee, n := Lin{}, Lin{}, 0
			for _, m := range ms {
				l := m.by.inDenom(e.denom)
				if len(l) == 0 {
					continue
				}
				if stripIface(m.acc) == acc {
					sum = sum.add(l, 1)
					n++
				} else if stripIface(m.acc).is("moduleaddr") {
					fee = fee.add(l, 1)
				}
			}
			if e.f == pay {
				sum = Lin{}.add(sum, -1)
			}
			due := 1
			if e.onlyIf && n == 0 {
				due = 0
			}
			if n > 1 {
				due = len(p.announcements(e.ev))
			}
			a.is(p, e.ev, due, map[string]func(*V) bool{"Account": exactly(acc)})
			told, toldFee := poly{}, poly{}
			for _, v := range p.announcements(e.ev) {
				if t := a.typ(e.ev); t != nil {
					told = told.add(polyOf(stripIface(fieldVal(v, t, "Ucoins"))), 1)
					if f := fieldVal(v, t, "Fee"); f != nil {
						toldFee = toldFee.add(polyOf(stripIface(f)), 1)
					}
				}
			}
			c.oblige(p.same(told, linPoly(sum)), kAnn, a.what, e.ev+".Ucoins ", told.String(), " moved ", linPoly(sum).String(), p.exit(c))
			if e.f == acr {
				c.oblige(p.same(toldFee, linPoly(fee)), kAnn, a.what, e.ev+".Fee ", toldFee.String(), " moved ", linPoly(fee).String(), p.exit(c))
			}
		}
		c.oblige(a.n > 0, "reachable", a.what, "")
	}
}

// same: the path knows the numbers to be equal.
func (p *Path) same(a, b poly) bool {
	d := a.add(b, -1)
	if lo, hi := p.sign(d); lo == 0 && hi == 0 {
		return true
	}
	return false
}

// announcedVotes: votes, proposals and results as they are recorded.
func (c *Check) announcedVotes() {
	k := c.votKeys()
	propose, vote := c.method(votK, "MsgServer", "Propose"), c.method(votK, "MsgServer", "Vote")
	end, poll := c.method(votK, "Keeper", "EndProposal"), c.method(votK, "Keeper", "EndPollHandler")
	pt, it := c.P.typ(votT, "Proposal"), c.P.typ(votT, "PollHistoryItem")
	if k == nil || propose == nil || vote == nil || end == nil || poll == nil || pt == nil || it == nil {
		return
	}
	msg := Sym("msg")
	o := pathOpts{inline: anyRepo, unroll: 1, hyp: wellCoded, watchI: inPkg(schedK), watch: set(end), announced: true}
	given := func(n string) *V { return c.msgPath(propose, msg, "Proposal", n) }
	a := &announcer{c: c, rel: votT, what: shortFn(propose)}
	for _, p := range c.paths(propose, []*V{Sym("keeper"), Sym("ctx"), msg}, o) {
		if p.Ok && !p.O.panic {
			a.is(p, "EventProposalCreated", 1, map[string]func(*V) bool{"Name": exactly(given("Name")), "Author": exactly(given("Author")), "Type": exactly(given("Type"))})
		}
	}
	c.oblige(a.n > 0, "reachable", a.what, "")
	a = &announcer{c: c, rel: votT, what: shortFn(vote)}
	voter, yes := c.msgPath(vote, msg, "Voter"), c.msgPath(vote, msg, "Agree")
	for _, p := range c.paths(vote, []*V{Sym("keeper"), Sym("ctx"), msg}, o) {
		if p.Ok && !p.O.panic {
			v, kn := p.known(yes)
			a.is(p, "EventProposalVote", 1, map[string]func(*V) bool{"Voter": exactly(voter), "Agreed": func(x *V) bool {
				if x == yes {
					return true
				}
				w, ok := p.known(x)
				return ok && kn && w == v
			}})
		}
	}
	c.oblige(a.n > 0, "reachable", a.what, "")
	prop := Sym("proposal")
	for _, agreed := range []bool{true, false} {
		a = &announcer{c: c, rel: votT, what: fmt.Sprint(shortFn(end), " agreed: ", agreed)}
		typ := fieldVal(prop, pt, "Type")
		for _, p := range c.paths(end, []*V{Sym("keeper"), Sym("ctx"), prop, Bool(agreed)}, pathOpts{inline: anyRepo, unroll: 1, announced: true, hyp: func(x *Exec, a *V, st *State) (bool, bool) {
			if a.is("eq") && (a.args[0] == typ || a.args[1] == typ) {
				return false, true // the effects of decisions are another matter
			}
			return wellCoded(x, a, st)
		}}) {
			if !p.O.panic {
				a.is(p, "EventVotingFinished", 1, map[string]func(*V) bool{"Name": exactly(fieldVal(prop, pt, "Name")), "Agreed": exactly(Bool(agreed))})
			}
		}
		c.oblige(a.n > 0, "reachable", a.what, "")
	}
	a = &announcer{c: c, rel: votT, what: shortFn(poll)}
	polT := c.P.typ(votT, "Poll")
	for _, p := range c.paths(poll, []*V{Sym("keeper"), Sym("ctx"), Sym("data"), Sym("time")}, pathOpts{inline: anyRepo, unroll: 1, iterOne: true, announced: true, hyp: func(x *Exec, a *V, st *State) (bool, bool) {
		if v, ok := absent(a, k.poll, true); ok {
			return v, ok
		}
		return wellCoded(x, a, st)
	}}) {
		if p.O.panic {
			continue
		}
		var item *V
		for _, e := range p.Ev {
			if e.Kind == "Set" && e.Args[1].is("encode") && typeHas(e.Args[1].args[0], it) {
				item = e.Args[1].args[0]
			}
		}
		if !c.oblige(item != nil && polT != nil, kAnn, a.what, "nothing in the history ", p.exit(c)) {
			continue
		}
		is := func(n string) func(*V) bool { return exactly(fieldVal(item, it, n)) }
		a.is(p, "EventPollFinished", 1, map[string]func(*V) bool{"Name": exactly(fieldVal(fieldVal(item, it, "Poll"), polT, "Name")), "Yes": is("Yes"), "No": is("No"), "Decision": is("Decision")})
	}
	c.oblige(a.n > 0, "reachable", a.what, "")
}

// announcedProfile: the limits, times and activity announced are those saved.
func (c *Check) announcedProfile() {
	m := c.proMachine()
	if m == nil {
		return
	}
	m.announced = true
	due := map[string]string{"BuyStorage": "EventBuyStorage", "GiveStorageUp": "EventGiveUpStorage", "BuyVpn": "EventBuyVpn", "BuyImStorage": "EventBuyExtraImStorage",
		"GiveImStorageUp": "EventGiveUpImStorage", "ProlongImExtra": "EventBuyExtraImStorage", "PayTariff": "EventPayTariff"}
	limits := map[string][2]string{"EventBuyStorage": {"StorageLimit", "StorageCurrent"}, "EventGiveUpStorage": {"StorageLimit", "StorageCurrent"}, "EventBuyVpn": {"VpnLimit", "VpnCurrent"}}
	seen := map[string]bool{}
	gone := map[string]bool{}
	for _, f := range m.funcs() {
		if typeName(deref(f.Signature.Recv().Type())) != proK+".Keeper" {
			continue
		}
		hook := strings.HasPrefix(f.Name(), "Handle")
		if due[f.Name()] == "" && !hook {
			continue
		}
		for _, until := range []int{0, 1, 2} {
			for _, im := range []int{0, 1, 2} {
				n := proCase{until: until, im: im, nick: "Old", want: "New"}
				rec := m.load(n)
				for _, p := range m.run(f, n, rec) {
					if p.O.panic || !p.Ok {
						continue
					}
					a := &announcer{c: c, rel: proT, what: shortFn(f)}
					nv := m.rec(p.O.st, proAcc)
					if nv == nil || until == 0 && (hook || !p.refutes(Sym("arg3"))) {
						continue // nothing to prolong
					}
					active := m.active
					if m.field(nv, "ActiveUntil") != m.field(rec, "ActiveUntil") {
						active = true
					}
					count := map[string]int{}
					for _, e := range p.Ev {
						if e.Kind != "announce" || !strings.HasPrefix(e.Name, proT+".") {
							continue
						}
						ev := e.Name[strings.LastIndexByte(e.Name, '.')+1:]
						t := a.typ(ev)
						if !c.oblige(t != nil, "anchor", ev, e.Name) {
							continue
						}
						count[ev]++
						seen[ev] = true
						get := func(fn string) *V {
							if v := fieldVal(e.Args[0], t, fn); v != nil {
								return stripIface(v)
							}
							return nil
						}
						c.oblige(get("Address") == proAcc, kAnn, a.what, ev+".Address", get("Address"), p.exit(c))
						if l, ok := limits[ev]; ok {
							c.oblige(get("NewLimit") == m.field(nv, l[0]) && (l[1] == "" || get("Used") == nil && ev == "" || get("Used") == m.field(nv, l[1])), kAnn, a.what, ev+": limit ", get("NewLimit"), " saved ", m.field(nv, l[0]), " used ", get("Used"), p.exit(c))
						}
						if v := get("ExpireAt"); v != nil {
							fn := "ActiveUntil"
							if ev != "EventPayTariff" {
								fn = "ExtraImUntil"
							}
							c.oblige(v == m.field(nv, fn), kAnn, a.what, ev+".ExpireAt ", v, " saved ", m.field(nv, fn), p.exit(c))
						}
						if strings.HasSuffix(ev, "ImStorage") {
							d := polyOf(get("NewLimit"))
							_, none := d.constant()
							_, with := d.add(polyOf(m.field(nv, "ImLimitExtra")).mul(polyInt(gbSize)), -1).constant()
							c.oblige(with || none, kAnn, a.what, ev+".NewLimit ", get("NewLimit"), " saved ", m.field(nv, "ImLimitExtra"), p.exit(c))
						}
						if ev == "EventActivityChanged" {
							v, kn := p.known(get("ActiveNow"))
							c.oblige(kn && v == active, kAnn, a.what, ev+".ActiveNow ", get("ActiveNow"), " active ", active, p.exit(c))
							gone[fmt.Sprint(v)] = true
						}
						if v := get("Total"); v != nil {
							c.oblige(p.isPaid(v), kAnn, a.what, ev+".Total ", v, p.exit(c))
						}
					}
					if ev := due[f.Name()]; ev != "" {
						c.oblige(count[ev] == 1, kAnn, a.what, ev, count[ev], " times ", p.exit(c))
					}
					was := until == 2
					if hook && !strings.Contains(f.Name(), "Im") && !was {
						c.oblige(active || count["EventActivityChanged"] == 1, kAnn, a.what, "inactivity announced ", count["EventActivityChanged"], " times ", p.exit(c))
					}
					if f.Name() == "PayTariff" {
						if au, kn := p.known(Sym("arg3")); kn && !au || was {
							c.oblige(was == (count["EventActivityChanged"] == 0), kAnn, a.what, "activity announced ", count["EventActivityChanged"], " times ", was, p.exit(c))
						}
					}
				}
			}
		}
	}
	for op, ev := range due {
		c.oblige(seen[ev], "reachable", op, ev)
	}
	c.oblige(gone["true"] && gone["false"], "reachable", "activity", fmt.Sprint(gone))
}

// refutes: the path knows it to be false.
func (p *Path) refutes(a *V) bool {
	v, ok := p.known(a)
	return ok && !v
}

// isPaid: the number is what a payment of the path takes from the payer, with the fee of the transaction or without.
func (p *Path) isPaid(v *V) bool {
	for _, e := range p.payments() {
		for _, a := range e.Args[2:] {
			a = stripIface(a)
			if ins := a; ins.k == KList && len(ins.args) == 1 {
				if _, coins := ioParts(ins.args[0]); coins != nil {
					a = coins
				}
			}
			if v.is("amountof") && v.args[0] == a && v.args[1] == Str("uartr") {
				return true
			}
			if q := coinPoly(a, "uartr"); len(q) > 0 && p.same(polyOf(v), q) {
				return true
			}
		}
	}
	return false
}

// announcedReferral: transitions, compressions and banishments.
func (c *Check) announcedReferral() {
	m := c.refMachine()
	if m == nil {
		return
	}
	k, ctx, acc, to, up, x1 := Sym("k"), Sym("ctx"), Sym("acc"), Sym("to"), Sym("up"), Sym("above1")
	kid1, kid2 := Sym("kid1"), Sym("kid2")
	names := map[*V]bool{acc: true, to: true, up: true, x1: true, kid1: true, kid2: true, Str(""): true}
	reason := c.P.enum(refT, "EventTransitionDeclined_Reason")
	begin := map[*V]map[string]*V{
		acc: {"Referrer": up, "Transition": to, "Referrals": List(kid1, kid2), "ActiveReferrals": List(kid1)},
		up:  {"Referrer": Str(""), "Referrals": List(acc), "ActiveReferrals": List(acc)},
		to:  {"Referrer": x1, "Referrals": List(), "ActiveReferrals": List()},
		x1:  {"Referrer": Str("")},
	}
	is := func(v *V) func(*V) bool { return exactly(v) }
	type F = map[string]func(*V) bool
	for _, op := range []struct {
		f    string
		args []*V
		was  map[string]*V // of the account
		ev   string
		want F
	}{
		{"RequestTransition", []*V{acc, to}, map[string]*V{"Transition": Str("")}, "EventTransitionRequested", F{"Address": is(acc), "Before": is(up), "After": is(to)}},
		{"CancelTransition", []*V{acc, Bool(true)}, nil, "EventTransitionDeclined", F{"Address": is(acc), "Before": is(up), "After": is(to), "Reason": is(Int(reason["REASON_TIMEOUT"]))}},
		{"CancelTransition", []*V{acc, Bool(false)}, nil, "EventTransitionDeclined", F{"Address": is(acc), "Before": is(up), "After": is(to), "Reason": is(Int(reason["REASON_DECLINED"]))}},
		{"AffirmTransition", []*V{acc}, nil, "EventTransitionPerformed", F{"Address": is(acc), "Before": is(up), "After": is(to)}},
		{"Banish", []*V{acc}, map[string]*V{"Transition": Str(""), "Referrals": List(), "ActiveReferrals": List()}, "EventAccBanished", F{"Address": is(acc)}},
		{"Compress", []*V{acc}, map[string]*V{"Transition": Str("")}, "EventCompression", F{"Address": is(acc), "Referrer": is(up), "Referrals": func(v *V) bool {
			for v.is("copy") {
				v = v.args[0]
			}
			return v == List(kid1, kid2)
		}}},
	} {
		f := c.method(refK, "Keeper", op.f)
		if f == nil {
			continue
		}
		m.init = map[*V]*V{}
		for a, fs := range begin {
			r := recSym(a)
			for _, n := range []string{"Referrer", "Transition", "Referrals", "ActiveReferrals"} {
				v := fs[n]
				if a == acc && op.was[n] != nil {
					v = op.was[n]
				}
				if v != nil {
					r = update(r, m.sel(n), v)
				}
			}
			m.init[a] = r
		}
		o := m.opts(func(a *V) (bool, bool) {
			if a.is("eq") && names[a.args[0]] && names[a.args[1]] && a.args[0] != a.args[1] {
				return false, true
			}
			if strings.HasSuffix(a.op, ".RegistrationClosed") && a.hasOp("call:") {
				return false, true
			}
			return false, false
		})
		o.announced = true
		base := o.onCall
		o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if ok, r := base(x, ci, st); ok {
				return ok, r
			}
			return listOps(x, ci, st)
		}
		a := &announcer{c: c, rel: refT, what: shortFn(f)}
		for _, p := range c.paths(f, append([]*V{k, ctx}, op.args...), o) {
			if p.Ok && !p.O.panic {
				a.is(p, op.ev, 1, op.want)
			}
		}
		c.oblige(a.n > 0, "reachable", a.what, "")
	}
	m.init = map[*V]*V{}
}

// announcedNoding: what is told of validators is what is on record.
func (c *Check) announcedNoding() {
	m := c.nodMachine()
	if m == nil {
		return
	}
	m.announced = true
	acc := Sym("acc")
	seen := map[string]bool{}
	m.eachOp(func(name string, f *ssa.Function, n nodCase, rec *V, p *Path) {
		if !p.ok() {
			return
		}
		nv := m.rec(p.O.st, acc)
		for _, e := range p.Ev {
			if e.Kind != "announce" || !strings.HasPrefix(e.Name, nodT+".") {
				continue
			}
			ev := e.Name[strings.LastIndexByte(e.Name, '.')+1:]
			t := c.P.typeOf(nodT, ev)
			if !c.oblige(t != nil, "anchor", ev, "") {
				continue
			}
			seen[ev] = true
			get := func(fn string) *V {
				if v := fieldVal(e.Args[0], t, fn); v != nil {
					return stripIface(v)
				}
				return nil
			}
			c.oblige(get("Address") == acc, kAnn, name, ev+".Address", get("Address"), p.exit(c))
			if b := get("Banned"); b != nil && nv != nil && !n.banned {
				v, kn := p.known(b)
				c.oblige(kn && v == m.isTrue(nv, "BannedForLife"), kAnn, name, ev+".Banned", b, p.exit(c))
			}
			if l := get("Evidences"); l != nil && nv != nil {
				c.oblige(l == m.get(nv, "Infractions"), kAnn, name, ev+".Evidences", l, p.exit(c))
			}
		}
	})
	c.oblige(len(seen) >= 3, "reachable", "events of validators", fmt.Sprint(seen))
}
