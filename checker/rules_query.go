package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Q01: the answer to a query is what the state holds of what was asked.

func init() { register("Q01", ruleQueries) }

type queryTold struct {
	rel, recv, query string
	get              string   // method of the module's keeper that tells it
	gotFrom          string   // type of the keeper
	args             []string // fields of the request it is asked about
	fields           []string // fields of the answer, result by result
}

func (c *Check) queriesTold() []queryTold {

	q := func(rel, query, get string, args, fields []string) queryTold {
		return queryTold{rel, "QueryServer", query, get, "Keeper", args, fields}
	}
	f := func(s ...string) []string { return s }
	return []queryTold{
		q(delK, "Params", "GetParams", nil, f("Params")),
		q(delK, "Revoking", "GetRevoking", f("AccAddress"), f("Revoking")),
		q(delK, "Get", "Get", f("AccAddress"), f("Data")),
		q(earnK, "Params", "GetParams", nil, f("Params")),
		q(nodK, "Params", "GetParams", nil, f("Params")),
		q(nodK, "Get", "Get", f("Account"), f("Info", "!")),
		q(nodK, "Proposer", "GetBlockProposer", f("Height"), f("Account", "!")),
		q(nodK, "IsAllowed", "IsQualified", f("Account"), f("Verdict", "", "Reason", "!")),
		q(nodK, "SwitchedOn", "GetActiveValidatorList", nil, f("Accounts", "!")),
		q(nodK, "State", "GetValidatorState", f("Account"), f("State")),
		q(proK, "Params", "GetParams", nil, f("Params")),
		q(proK, "GetByAddress", "GetProfile", f("Address"), f("Profile")),
		q(proK, "GetByNickname", "GetProfileAccountByNickname", f("Nickname"), f("Address")),
		q(proK, "GetByCardNumber", "GetProfileAccountByCardNumber", f("CardNumber"), f("Address")),
		q(refK, "Params", "GetParams", nil, f("Params")),
		q(refK, "Get", "Get", f("AccAddress"), f("Info", "!")),
		q(refK, "Coins", "GetCoinsInNetwork", f("AccAddress", "MaxDepth"), f("Total", "!")),
		q(refK, "Coins", "GetDelegatedInNetwork", f("AccAddress", "MaxDepth"), f("Delegated", "!")),
		q(refK, "CheckStatus", "AreStatusRequirementsFulfilled", f("AccAddress", "Status"), f("Result", "!")),
		q(schedK, "Params", "GetParams", nil, f("Params")),
		q(schedK, "Get", "GetTasks", f("Since", "To"), f("Tasks")),
		q(votK, "Params", "GetParams", nil, f("Params")),
		q(votK, "History", "GetHistory", f("Limit", "Page"), f("History")),
		q(votK, "Government", "GetGovernment", nil, f("Members")),
		q(votK, "Current", "GetCurrentProposal", nil, f("Proposal")),
		q(votK, "Current", "GetGovernment", nil, f("Government")),
		q(votK, "Current", "GetAgreed", nil, f("Agreed")),
		q(votK, "Current", "GetDisagreed", nil, f("Disagreed")),
		q(votK, "Poll", "GetCurrentPoll", nil, f("Poll", "!")),
		q(votK, "Poll", "GetPollStatus", nil, f("Yes", "No")),
		q(votK, "PollHistory", "GetPollHistory", f("Limit", "Page"), f("History")),
		{bankK, "BaseKeeper", "Params", "GetParams", "BaseKeeper", nil, f("Params")},
		{bankK, "BaseKeeper", "Supply", "GetSupply", "BaseKeeper", nil, f("Supply")},
		{bankK, "BaseKeeper", "Balance", "GetBalance", "BaseKeeper", f("AccAddress"), f("Balance")},
	}
}

const kTold = "a query tells what the state holds of what was asked"

func ruleQueries(c *Check) {
	req := Sym("req")
	args := []*V{Sym("server"), Sym("ctx"), req}
	tell := map[string][]queryTold{}
	order := []string{}
	for _, t := range c.queriesTold() {
		k := t.rel + " " + t.query
		if tell[k] == nil {
			order = append(order, k)
		}
		tell[k] = append(tell[k], t)
	}
	isTold := func(v *V, name string) bool { return v.is("told:" + name) }
	for _, key := range order {
		ts := tell[key]
		f := c.method(ts[0].rel, ts[0].recv, ts[0].query)
		if f == nil {
			continue
		}
		getters := map[*ssa.Function]queryTold{}
		for _, t := range ts {
			if g := c.method(t.rel, t.gotFrom, t.get); g != nil {
				getters[g] = t
			}
		}
		o := pathOpts{inline: func(f *ssa.Function) bool { return anyRepo(f) }, unroll: 2, limit: 2000, outLimit: 2000}
		o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			t, ok := getters[ci.Fn]
			if ci.Fn == nil || !ok || len(ci.Args) < 2 {
				return false, nil
			}
			as := []*V{}
			for _, a := range ci.Args[2:] {
				as = append(as, x.snap(st, stripIface(a)))
			}
			rs := ci.Sig.Results()
			var out Outcome
			out.st = st
			var bad *Outcome
			for i := 0; i < rs.Len(); i++ {
				out.vals = append(out.vals, App("told:"+t.get+"#"+itoa(i), as...))
			}
			if n := rs.Len(); n > 0 && isErrorType(rs.At(n-1).Type()) {
				b := Outcome{st: st.clone(), vals: append([]*V{}, out.vals...)}
				b.vals[n-1] = rawApp("err:told", ci.Site)
				b.st.ev["failed"] = Bool(true)
				bad = &b
				out.vals[n-1] = vNil
			}
			if bad != nil {
				return true, []Outcome{out, *bad}
			}
			return true, []Outcome{out}
		}
		rt := f.Signature.Results().At(0).Type()
		seen := map[string]bool{}
		for _, p := range c.paths(f, args, o) {
			if p.O.panic {
				continue
			}
			if p.O.st.ev["failed"] != nil {
				c.oblige(!p.Ok, "a query that cannot be answered fails", key, p.exit(c))
				continue
			}
			if !p.Ok {
				continue
			}
			for _, t := range ts {
				for a, b := range p.facts() {
					if !b && a.hasOp("told:"+t.get+"#") && len(t.fields) > 1 && strings.HasSuffix(a.op, "#"+itoa(len(t.fields)-1)) && t.fields[len(t.fields)-1] == "!" {
						c.oblige(false, "a query of what is not there fails", key, p.exit(c))
					}
				}
			}
			r := p.X.snap(p.O.st, p.X.load(p.O.st, stripIface(p.O.vals[0])))
			for _, t := range ts {
				for i, field := range t.fields {
					if field == "" || field == "!" {
						continue
					}
					v := fieldVal(r, rt, field)
					if v == nil {
						c.oblige(false, kTold, key, "no field "+field)
						continue
					}
					v = stripIface(v)
					if v.k == KAddr || v.is("alloc") {
						v = p.X.snap(p.O.st, p.X.load(p.O.st, v))
					}
					var got *V
					others := false
					v.mentions(func(y *V) bool {
						if isTold(y, t.get+"#"+itoa(i)) {
							if got != nil && got != y {
								others = true
							}
							got = y
							return false
						}
						if y.k == KApp && strings.HasPrefix(y.op, "told:") && !isTold(y, t.get+"#"+itoa(i)) {
							others = true
						}
						return false
					})
					if got == nil && key == votK+" Current" && (isNilV(v) || v.is("zero") || v.k == KZero) {
						none := false
						for a, b := range p.facts() {
							none = none || b && a.is("isnil") && isTold(a.args[0], "GetCurrentProposal#0")
						}
						c.oblige(none, kTold, key+"."+field, "nothing told of a proposal there is", p.exit(c))
						continue
					}
					ok := got != nil && !others
					why := ""
					if ok && v != got && v.k != KStruct && !v.is("makeslice") && !(v.hasOp("field:") && v.args[0] == got) {
						ok, why = false, "changed on the way"
					}
					if ok {
						for j, a := range t.args {
							w := c.msgPath(f, req, a)
							if w == nil || j >= len(got.args) || !mention(got.args[j], w) {
								ok, why = false, "not asked about "+a
							}
							for k, b := range t.args {
								if k != j && j < len(got.args) && mention(got.args[j], c.msgPath(f, req, b)) {
									ok, why = false, "asked about "+b+" in place of "+a
								}
							}
						}
						if v.k == KStruct && !c.sameTold(v, got, p, c.lightOf(key, f, req)) {
							ok, why = false, "changed on the way"
						}
					}
					seen[field] = seen[field] || ok
					c.oblige(ok, kTold, key+"."+field, why, v, p.exit(c))
				}
			}
		}
		for _, t := range ts {
			for _, field := range t.fields {
				if field != "" && field != "!" {
					c.oblige(seen[field], "a query can be answered", key+"."+field)
				}
			}
		}
	}
	c.listsTold()
	c.validatorState()
	c.earnersTold()
	c.transitionTold()
	c.statusList()
}

// validatorState: banned before jailed before switched off; one that is switched on is spare without power, and with
// power at the top, or lucky if it was drawn.
func (c *Check) validatorState() {
	const kState = "the state of a validator told is that of its record"
	f, get := c.method(nodK, "Keeper", "GetValidatorState"), c.method(nodK, "Keeper", "Get")
	if f == nil || get == nil {
		return
	}
	t := get.Signature.Results().At(0).Type()
	sel := func(n string) *V {
		if i := indexOfField(t, n); i >= 0 {
			return FieldSel(t, i)
		}
		c.oblige(false, "anchor", nodK, "no field", n)
		return Sym("none")
	}
	for m := 0; m < 33; m++ {
		want := "OFF"
		switch {
		case m == 32:
		case m&1 != 0:
			want = "BAN"
		case m&2 != 0:
			want = "JAIL"
		case m&4 == 0:
		case m&8 == 0:
			want = "SPARE"
		case m&16 == 0:
			want = "TOP"
		default:
			want = "LUCKY"
		}
		k, _ := c.P.constOf("x/noding/types", "VALIDATOR_STATE_"+want)
		rec := update(update(update(Sym("info"), sel("BannedForLife"), Bool(m&1 != 0)), sel("Jailed"), Bool(m&2 != 0)), sel("Status"), Bool(m&4 != 0))
		rec = update(update(rec, sel("LastPower"), Int(int64(m>>3&1*7))), sel("LotteryNo"), Int(int64(m>>4&1*5)))
		n := 0
		for _, p := range c.paths(f, []*V{Sym("keeper"), Sym("ctx"), Sym("acc")}, pathOpts{inline: anyRepo, onCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if ci.Fn != get {
				return false, nil
			}
			e := vNil
			if m == 32 {
				e = rawApp("err:none", ci.Site)
			}
			return true, []Outcome{{vals: []*V{rec, e}, st: st}}
		}}) {
			n++
			v, ok := intOf(p.O.vals[0])
			c.oblige(!p.O.panic && ok && k != "" && itoa(int(v)) == k, kState, fmt.Sprintf("%05b", m), want, p.O.vals[0])
		}
		c.oblige(n > 0, kState, "decided", m)
	}
}

// earnersTold: an account without marks is told to have none, others those on record.
func (c *Check) earnersTold() {
	f := c.method(earnK, "QueryServer", "Get")
	if f == nil {
		return
	}
	req := Sym("req")
	a := c.msgPath(f, req, "Address")
	if a == nil {
		return
	}
	rt := f.Signature.Results().At(0).Type()
	n := 0
	for _, p := range c.paths(f, []*V{Sym("server"), Sym("ctx"), req}, pathOpts{inline: anyRepo, unroll: 3, hyp: wellCoded}) {
		if !p.Ok || p.O.panic {
			continue
		}
		r := p.X.snap(p.O.st, p.X.load(p.O.st, stripIface(p.O.vals[0])))
		n++
		c.marksTold(p, fieldVal(r, rt, "Earner"), fieldType(rt, "Earner"), a, earnK+" Get")
	}
	c.oblige(n > 1, "a query can be answered", earnK+" Get")
	f = c.method(earnK, "QueryServer", "GetMultiple")
	if f == nil {
		return
	}
	qt := deref(f.Signature.Params().At(1).Type())
	rt = f.Signature.Results().At(0).Type()
	s, ok := qt.Underlying().(*types.Struct)
	if !c.oblige(ok && fieldVal(req, qt, "Addresses") != nil, "anchor", earnK, "Addresses") {
		return
	}
	one, two := Sym("address1"), Sym("address2")
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Addresses" {
			req = update(req, FieldSel(qt, i), List(one, two))
		}
	}
	st := newState()
	at := rawApp("alloc", Sym("req"))
	st.mem[at] = req
	n = 0
	for _, p := range c.paths(f, []*V{Sym("server"), Sym("ctx"), Addr(at)}, pathOpts{inline: anyRepo, unroll: 3, st: st, hyp: wellCoded}) {
		if !p.Ok || p.O.panic {
			continue
		}
		r := p.X.snap(p.O.st, p.X.load(p.O.st, stripIface(p.O.vals[0])))
		es := fieldVal(r, rt, "Earners")
		if es != nil {
			es = stripIface(es)
		}
		if !c.oblige(es != nil && es.k == KList && len(es.args) == 2, kTold, earnK+" GetMultiple", "one answer for each account asked for, not ", es, p.exit(c)) {
			continue
		}
		n++
		var et types.Type
		if sl, ok := fieldType(rt, "Earners").(*types.Slice); ok {
			et = sl.Elem()
		}
		for i, a := range []*V{one, two} {
			c.marksTold(p, p.X.snap(p.O.st, es.args[i]), et, a, earnK+" GetMultiple")
		}
	}
	c.oblige(n >= 4, "a query can be answered", earnK+" GetMultiple", n)
}

// marksTold: the marks are those on record of the account, or there are none on record.
func (c *Check) marksTold(p *Path, e *V, et types.Type, a *V, what string) {
	if e == nil || et == nil {
		c.oblige(false, "anchor", what, "no Earner")
		return
	}
	acc, vpn, sto := fieldVal(e, et, "Account"), fieldVal(e, et, "Vpn"), fieldVal(e, et, "Storage")
	if acc == nil || vpn == nil || sto == nil {
		c.oblige(false, "anchor", what, "fields of Earner")
		return
	}
	ok := mention(acc, a)
	has := func(v *V, n string) bool {
		return isNilV(v) || v.mentions(func(y *V) bool { return y.hasOp("field:") && strings.HasSuffix(y.op, "."+n) && mention(y.args[0], a) })
	}
	ok = ok && has(vpn, "Vpn") && has(sto, "Storage") && isNilV(vpn) == isNilV(sto)
	none := false
	for q, b := range p.facts() {
		none = none || !b && strings.HasSuffix(q.op, ".Has") && mention(q, a)
	}
	c.oblige(ok && isNilV(vpn) == none, kTold, what, acc, vpn, sto, p.exit(c))
}

// transitionTold: a transition is told to be allowed exactly if it is.
func (c *Check) transitionTold() {
	f := c.method(refK, "QueryServer", "ValidateTransition")
	if f == nil {
		return
	}
	req := Sym("req")
	su, ta := c.msgPath(f, req, "Subject"), c.msgPath(f, req, "Target")
	if su == nil || ta == nil {
		return
	}
	rt := f.Signature.Results().At(0).Type()
	seen := map[bool]int{}
	for _, p := range c.paths(f, []*V{Sym("server"), Sym("ctx"), req}, pathOpts{inline: func(g *ssa.Function) bool { return g.Parent() != nil && g.Parent() == f }, onCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
		if ci.Fn == nil || !anyRepo(ci.Fn) || len(ci.Args) < 4 || ci.Sig.Results().Len() != 1 || !isErrorType(ci.Sig.Results().At(0).Type()) {
			return false, nil
		}
		c.oblige(stripIface(ci.Args[2]) == su && stripIface(ci.Args[3]) == ta, kTold, refK+" ValidateTransition", "asked about others")
		b := st.clone()
		b.ev["failed"] = Bool(true)
		return true, []Outcome{{vals: []*V{vNil}, st: st}, {vals: []*V{rawApp("err:told", ci.Site)}, st: b}}
	}}) {
		if p.O.panic || !p.Ok {
			continue
		}
		r := p.X.snap(p.O.st, p.X.load(p.O.st, stripIface(p.O.vals[0])))
		ok, e := fieldVal(r, rt, "Ok"), fieldVal(r, rt, "Error")
		bad := p.O.st.ev["failed"] != nil
		seen[bad]++
		c.oblige(ok == Bool(!bad) || bad && ok.k == KZero, kTold, refK+" ValidateTransition", ok, "; ", p.exit(c))
		c.oblige(!bad || mention1(e, Sym("err")) || e.mentions(func(y *V) bool { return y.is("err:told") }), kTold, refK+" ValidateTransition", "the reason is not told ", e)
	}
	c.oblige(seen[true] > 0 && seen[false] > 0, "a query can be answered", refK+" ValidateTransition")
}

// statusList: the accounts with a status are those indexed under it.
func (c *Check) statusList() {
	f := c.method(refK, "QueryServer", "AllWithStatus")
	if f == nil {
		return
	}
	req := Sym("req")
	s := c.msgPath(f, req, "Status")
	if s == nil {
		return
	}
	l := &listing{n: 1}
	for _, p := range c.paths(f, []*V{Sym("server"), Sym("ctx"), req}, pathOpts{inline: anyRepo, unroll: 12, limit: 4000, outLimit: 4000,
		onCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) { return l.call(c, x, ci, st) }}) {
		if p.O.panic || !p.Ok {
			continue
		}
		r := p.O.st.ev["range"]
		ok := r != nil && r.is("range:prefix")
		if ok && !mention(r.args[0], s) {
			// the value may be known on the path
			w := stripIface(r.args[0])
			ok = false
			for q, b := range p.facts() {
				if b && q.is("eq") && (q.args[0] == s && mention(w, q.args[1]) || q.args[1] == s && mention(w, q.args[0])) {
					ok = true
				}
			}
		}
		c.oblige(ok, kTold, refK+" AllWithStatus", "another part of the index", r, p.exit(c))
	}
}

// lightOf: the request to leave the lists out.
func (c *Check) lightOf(key string, f *ssa.Function, req *V) *V {
	if key == refK+" Get" {
		return c.msgPath(f, req, "Light")
	}
	return nil
}

// sameTold: v is what was got, item by item if it is a list; the lists of a record are left out on request only.
func (c *Check) sameTold(v, got *V, p *Path, light *V) bool {
	if v.args[0].is("makeslice") || v.args[0].k == KZero || v.args[0].is("alloc") {
		for i := 1; i+1 < len(v.args); i += 2 {
			n, ok := intOf(v.args[i])
			if !ok {
				return false
			}
			if !v.args[i+1].mentions(func(y *V) bool {
				if !y.is("index") || y.args[0] != got {
					return false
				}
				m, ok := intOf(y.args[1])
				return ok && m == n
			}) {
				return false
			}
		}
		return true
	}
	if v.args[0] != got {
		return false
	}
	known, yes := false, false
	if light != nil {
		yes, known = p.known(light)
	}
	for i := 1; i+1 < len(v.args); i += 2 {
		n := v.args[i].op
		if !(known && yes && isNilV(v.args[i+1]) && (strings.HasSuffix(n, "Referrals"))) {
			return false
		}
	}
	return true
}

const earnK = "x/earning/keeper"

const kItems = "a list told has exactly the items due, in order"

type listing struct {
	n    int
	made func(kind string, args []*V)
}

func (l *listing) call(c *Check, x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
	ret := func(v ...*V) (bool, []Outcome) { return true, []Outcome{{vals: v, st: st}} }
	make := func(kind string, args []*V) (bool, []Outcome) {
		as := []*V{}
		for _, a := range args {
			as = append(as, normKey(orNil(x.snap(st, a))))
		}
		it := rawApp("listing", ci.Site)
		st.ev["range"] = rawApp("range:"+kind, as...)
		st.ev["pos"] = Int(0)
		return ret(it)
	}
	n := ci.Name
	switch {
	case strings.HasSuffix(n, ".KVStorePrefixIterator"):
		return make("prefix", ci.Args[1:])
	case strings.HasSuffix(n, ".KVStorePrefixIteratorPaginated"):
		return make("page", ci.Args[1:])
	case strings.HasSuffix(n, ".KVStoreReversePrefixIterator"), strings.HasSuffix(n, ".KVStoreReversePrefixIteratorPaginated"):
		return make("reverse", ci.Args[1:])
	}
	if op, _, _, ok := c.P.kvCall(x, ci, st); ok && strings.HasSuffix(op, "terator") {
		return make(op, ci.Args[1:])
	}
	i := strings.LastIndexByte(n, '.')
	if i < 0 || len(ci.Args) == 0 || !stripIface(ci.Args[0]).is("listing") {
		return false, nil
	}
	pos, _ := intOf(st.ev["pos"])
	switch n[i+1:] {
	case "Valid":
		return ret(Bool(pos < int64(l.n)))
	case "Next":
		st.ev["pos"] = Int(pos + 1)
		return ret()
	case "Key":
		return ret(Sym("key#" + itoa(int(pos))))
	case "Value":
		return ret(Sym("item#" + itoa(int(pos))))
	case "Close":
		return ret(vNil)
	}
	return false, nil
}

// flat: the elements of a list put together.
func flat(v *V) []*V {
	v = stripIface(v)
	switch {
	case v.k == KList:
		return v.args
	case v.is("append"), v.is("concat"):
		r := []*V{}
		for _, a := range v.args {
			r = append(r, flat(a)...)
		}
		return r
	case isNilV(v), v.k == KZero, v.is("makeslice"):
		return nil
	}
	return []*V{v}
}

// listsTold: queries that go through the store.
func (c *Check) listsTold() {
	type due struct {
		rel, recv, f string
		field        string // of the answer; "" is the answer itself
		args         []*V
		first, n     int
		where        func(r *V, req *V) string // the part of the store gone through
	}
	all := func(r, req *V) string {
		if strings.HasSuffix(r.op, ":Iterator") && len(r.args) == 2 && isNilV(r.args[0]) && isNilV(r.args[1]) {
			return ""
		}
		return "not all of the store"
	}
	pre := func(by ...*V) func(r, req *V) string {
		return func(r, req *V) string {
			if !r.is("range:prefix") {
				return "not a prefix"
			}
			for _, b := range by {
				if !mention(r.args[0], b) {
					return "not the part asked for"
				}
			}
			return ""
		}
	}
	page := func(lim, pg int64) func(r, req *V) string {
		return func(r, req *V) string {
			if r.is("range:page") && len(r.args) == 3 {
				a, ok1 := intOf(r.args[1])
				b, ok2 := intOf(r.args[2])
				if ok1 && ok2 && a == pg && b == lim {
					return ""
				}
			}
			return "another page"
		}
	}
	req := Sym("req")
	k, ctx := Sym("keeper"), Sym("ctx")
	ds := []due{
		{nodK, "QueryServer", "Queue", "Queue", []*V{k, ctx, req}, 0, 5, pre()},
		{refK, "QueryServer", "AllWithStatus", "Accounts", []*V{k, ctx, req}, 0, 5, nil},
		{schedK, "QueryServer", "All", "Tasks", []*V{k, ctx, req}, 0, 5, all},
		{schedK, "Keeper", "GetTasks", "", []*V{k, ctx, Sym("since"), Sym("to")}, 0, 5, func(r, _ *V) string {
			if strings.HasSuffix(r.op, ":Iterator") && len(r.args) == 2 && mention(r.args[0], Sym("since")) && !mention(r.args[0], Sym("to")) && mention(r.args[1], Sym("to")) && !mention(r.args[1], Sym("since")) {
				return ""
			}
			return "not the span asked for"
		}},
		{votK, "Keeper", "GetPollHistoryAll", "", []*V{k, ctx}, 0, 5, pre()},
		{votK, "Keeper", "GetPollHistory", "", []*V{k, ctx, Int(0), Int(0)}, 0, 5, pre()},
		{votK, "Keeper", "GetPollHistory", "", []*V{k, ctx, Int(7), Int(3)}, 0, 5, page(7, 3)},
		{votK, "Keeper", "GetHistory", "", []*V{k, ctx, Int(2147483647), Int(1)}, 0, 5, pre()},
	}
	for _, pg := range []struct{ lim, pg, first, n int }{{2, 1, 0, 2}, {2, 2, 2, 2}, {2, 3, 4, 1}, {2, 4, 0, 0}, {10, 1, 0, 5}, {1, 3, 2, 1}, {5, 1, 0, 5}} {
		ds = append(ds, due{votK, "Keeper", "GetHistory", "", []*V{k, ctx, Int(int64(pg.lim)), Int(int64(pg.pg))}, pg.first, pg.n, pre()})
		ds = append(ds, due{earnK, "QueryServer", "List", "List", []*V{k, ctx, List(Int(int64(pg.lim)), Int(int64(pg.pg)))}, pg.first, pg.n, all})
	}
	for _, d := range ds {
		f := c.method(d.rel, d.recv, d.f)
		if f == nil {
			continue
		}
		args := d.args
		if d.f == "List" {
			t := f.Signature.Params().At(1).Type().Underlying().(*types.Pointer).Elem()
			r := Sym("listreq")
			for i, n := range []string{"Limit", "Page"} {
				if j := indexOfField(t, n); j >= 0 {
					r = update(r, FieldSel(t, j), d.args[2].args[i])
				}
			}
			args = []*V{k, ctx, r}
		}
		l := &listing{n: 5}
		o := pathOpts{inline: anyRepo, unroll: 8, hyp: wellCoded, limit: 4000, outLimit: 4000,
			onCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) { return l.call(c, x, ci, st) }}
		np := 0
		for _, p := range c.paths(f, args, o) {
			if p.O.panic || f.Signature.Results().Len() > 1 && !p.Ok {
				continue
			}
			np++
			v := stripIface(p.O.vals[0])
			if d.field != "" {
				r := p.X.snap(p.O.st, p.X.load(p.O.st, v))
				v = fieldVal(r, f.Signature.Results().At(0).Type(), d.field)
			}
			if v == nil {
				c.oblige(false, kItems, d.rel, d.f, "no field", d.field)
				continue
			}
			got := flat(p.X.snap(p.O.st, v))
			ok := len(got) == d.n
			for i := 0; ok && i < d.n; i++ {
				for j := 0; j < l.n; j++ {
					m := mention(got[i], Sym("item#"+itoa(j))) || mention(got[i], Sym("key#"+itoa(j)))
					ok = ok && m == (j == d.first+i)
				}
			}
			c.oblige(ok, kItems, d.rel, d.f, d.args[2:], v, p.exit(c))
			if d.where != nil {
				why := "nothing gone through"
				if r := p.O.st.ev["range"]; r != nil {
					why = d.where(r, req)
				}
				c.oblige(why == "", kItems, d.rel, d.f, why, p.O.st.ev["range"])
			}
		}
		c.oblige(np > 0, "a query can be answered", d.rel, d.f, d.args[2:])
	}
}
