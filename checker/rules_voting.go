package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const votK = "x/voting/keeper"
const votT = "x/voting/types"

func init() {
	register("V01", ruleVotingGate)
	register("V02", ruleTally)
	register("V03", ruleDecisionEffect)
	register("V04", ruleGovernedState)
	register("V05", ruleVotingLifecycle)
	register("V06", rulePolls)
}

// anyRepo: every function of the repository but the wiring of the application is looked into.
func anyRepo(f *ssa.Function) bool {
	return strings.HasPrefix(fnPkgPath(f), modPath+"/") && !isAppPkg(f)
}

// inPkg selects the calls of functions of a package of the repository.
func inPkg(rel ...string) func(ci *CallInfo) bool {
	return func(ci *CallInfo) bool {
		if ci.Fn == nil {
			return false
		}
		for _, r := range rel {
			if fnPkgPath(ci.Fn) == modPath+"/"+r {
				return true
			}
		}
		return false
	}
}

// votKeys are the (flattened) keys of the voting store.
type votKeys struct{ cur, gov, agreed, disagreed, start, poll string }

func (c *Check) votKeys() *votKeys {
	k := &votKeys{}
	k.cur = c.getterKey(votK, "Keeper", "GetCurrentProposal")
	k.gov = c.getterKey(votK, "Keeper", "GetGovernment")
	k.agreed = c.getterKey(votK, "Keeper", "GetAgreed")
	k.disagreed = c.getterKey(votK, "Keeper", "GetDisagreed")
	k.start = c.getterKey(votK, "Keeper", "GetStartBlock")
	k.poll = c.getterKey(votK, "Keeper", "GetCurrentPoll")
	ks := map[string]bool{}
	for _, x := range []string{k.cur, k.gov, k.agreed, k.disagreed, k.start, k.poll} {
		if x == "?" {
			return nil
		}
		ks[x] = true
	}
	if !c.oblige(len(ks) == 6, "the voting records have keys of their own", votK, ks) {
		return nil
	}
	return k
}

// absent: the atom says that nothing is stored under the key (val: what to answer for "there is something").
func absent(a *V, key string, there bool) (bool, bool) {
	if a.is("isnil") && isGetCall(stripIface(a.args[0])) && readOf(a, key) {
		return !there, true
	}
	if a.hasOp("call:") && strings.HasSuffix(a.op, ".Has") && readOf(a, key) {
		return there, true
	}
	if a.is("eq") {
		for i := 0; i < 2; i++ {
			if n, ok := intOf(a.args[i]); ok && n == 0 && a.args[1-i].is("len") && isGetCall(stripIface(a.args[1-i].args[0])) && readOf(a, key) {
				return !there, true
			}
		}
	}
	return false, false
}

// elemOf: the atom compares an element of the list stored under a key with who.
func elemOf(a *V, key string, who *V) bool {
	if !a.is("eq") && !strings.Contains(a.op, "Equal") || len(a.args) != 2 {
		return false
	}
	for i := 0; i < 2; i++ {
		x, y := a.args[i], a.args[1-i]
		if mention(y, who) && readOf(x, key) && x.mentions(func(v *V) bool { return v.is("index") }) {
			return true
		}
	}
	return false
}

// nonEmpty answers that the list stored under a key has (at least) one element.
func nonEmpty(a *V, key string) (bool, bool) {
	if a.is("isnil") && isGetCall(stripIface(a.args[0])) && readOf(a, key) {
		return false, true
	}
	if a.is("lt") && a.args[1].is("len") && readOf(a.args[1], key) {
		if n, ok := intOf(a.args[0]); ok && n == 0 {
			return true, true
		}
	}
	if a.is("eq") {
		for i := 0; i < 2; i++ {
			if n, ok := intOf(a.args[i]); ok && n == 0 && a.args[1-i].is("len") && readOf(a, key) {
				return false, true
			}
		}
	}
	return false, false
}

func wellCoded(x *Exec, a *V, st *State) (bool, bool) {
	if a.is("isnil") && a.args[0].k == KApp && (strings.HasSuffix(a.args[0].op, "proto.Marshal") || strings.HasSuffix(a.args[0].op, "proto.Unmarshal")) {
		return true, true
	}
	return false, false
}

func ruleVotingGate(c *Check) {
	k := c.votKeys()
	propose, vote := c.method(votK, "MsgServer", "Propose"), c.method(votK, "MsgServer", "Vote")
	start := c.method(votK, "MsgServer", "StartPoll")
	if k == nil || propose == nil || vote == nil || start == nil {
		return
	}
	msg := Sym("msg")
	args := []*V{Sym("keeper"), Sym("ctx"), msg}
	author := c.msgPath(propose, msg, "Proposal", "Author")
	voter := c.msgPath(vote, msg, "Voter")
	pollAuthor := c.msgPath(start, msg, "Poll", "Author")
	yes := c.msgPath(vote, msg, "Agree")
	if author == nil || voter == nil || pollAuthor == nil || yes == nil {
		return
	}
	opt := pathOpts{inline: anyRepo, unroll: 1, hyp: wellCoded, watchI: inPkg(schedK)}
	notMember := func(who *V) func(a *V) (bool, bool) {
		return func(a *V) (bool, bool) {
			if elemOf(a, k.gov, who) {
				return false, true
			}
			return false, false
		}
	}
	c.refused("only members of the government propose", propose, args, opt, notMember(author))
	c.refused("only members of the government vote", vote, args, opt, notMember(voter))
	c.refused("only members of the government start polls", start, args, opt, notMember(pollAuthor))
	c.refused("one proposal at a time", propose, args, opt, func(a *V) (bool, bool) { return absent(a, k.cur, true) })
	c.refused("no voting without a proposal", vote, args, opt, func(a *V) (bool, bool) { return absent(a, k.cur, false) })
	c.refused("one poll at a time", start, args, opt, func(a *V) (bool, bool) { return absent(a, k.poll, true) })
	for _, l := range []string{k.agreed, k.disagreed} {
		c.refused("nobody votes twice", vote, args, opt, func(a *V) (bool, bool) {
			if elemOf(a, l, voter) {
				return true, true
			}
			return nonEmpty(a, l)
		})
	}
	// what a vote does
	end := c.method(votK, "Keeper", "EndProposal")
	o := opt
	o.watch = set(end)
	n := map[bool]int{}
	gt := c.P.typ(votT, "Government")
	for _, p := range c.paths(vote, args, o) {
		if !p.Ok {
			continue
		}
		v, ok := p.known(yes)
		if !c.oblige(ok, "a vote is for or against", shortFn(vote), "neither; ", p.exit(c)) {
			continue
		}
		n[v]++
		want, other := k.agreed, k.disagreed
		if !v {
			want, other = other, want
		}
		var w []Ev
		for _, e := range p.Ev {
			if e.Kind == "Set" || e.Kind == "Delete" {
				w = append(w, e)
			}
		}
		good := len(w) == 1 && w[0].Kind == "Set" && fullKey(w[0]) == want
		if good {
			val := w[0].Args[1]
			if val.is("encode") {
				val = val.args[0]
			}
			m := fieldVal(val, gt, "Members")
			good = m != nil && m.is("append") && len(m.args) == 2 && m.args[1] == voter
			if good && m.args[0].k != KNil && m.args[0].k != KZero && !(m.args[0].k == KList && len(m.args[0].args) == 0) {
				good = readOf(m.args[0], want)
			}
			if !good && m != nil && m.k == KList { // the first one
				good = len(m.args) == 1 && m.args[0] == voter
			}
		}
		c.oblige(good, "a vote is added to the votes of its side and changes nothing else", shortFn(vote), evStr(w), "; ", p.exit(c))
		_ = other
	}
	c.oblige(n[true] > 0 && n[false] > 0, "reachable success", shortFn(vote), n)
	// what a proposal does
	pt := c.P.typ(votT, "Proposal")
	np := 0
	for _, p := range c.paths(propose, args, o) {
		if !p.Ok {
			continue
		}
		np++
		got := map[string]*V{}
		bad := ""
		var sched []*V
		for _, e := range p.Ev {
			switch {
			case e.Kind == "Set":
				v := e.Args[1]
				if v.is("encode") {
					v = v.args[0]
				}
				got[fullKey(e)] = v
			case e.Kind == "Delete":
				bad = "deletes " + e.Store
			case e.Kind == "call" && e.Fn != nil && fnPkgPath(e.Fn) == modPath+"/"+schedK:
				sched = e.Args
			}
		}
		if len(got) != 4 {
			bad = "unexpected writes"
		}
		cur := got[k.cur]
		if cur == nil || got[k.agreed] == nil || got[k.disagreed] == nil || got[k.start] == nil {
			c.oblige(false, "a proposal is stored with its author's vote", shortFn(propose), "not stored; ", p.exit(c))
			continue
		}
		for i := 0; i < pt.Underlying().(*types.Struct).NumFields(); i++ {
			f := pt.Underlying().(*types.Struct).Field(i).Name()
			if f == "EndTime" {
				continue
			}
			if w := c.msgPath(propose, msg, "Proposal", f); fieldVal(cur, pt, f) != w {
				bad = "field " + f + " is changed"
			}
		}
		m := fieldVal(got[k.agreed], gt, "Members")
		if !(m != nil && (m.k == KList && len(m.args) == 1 && m.args[0] == author || m.is("append") && len(m.args) == 2 && m.args[1] == author && !readOf(m.args[0], k.agreed) && emptyList(m.args[0]))) {
			bad = "votes for are not just the author's"
		}
		if m := fieldVal(got[k.disagreed], gt, "Members"); !(m != nil && emptyList(m)) {
			bad = "there are votes against"
		}
		et := fieldVal(cur, pt, "EndTime")
		if et == nil || et.k == KNil || et.k == KZero || !mention(et, rawApp("blocktime")) || !hasFieldNamed(et, "VotingPeriod") {
			bad = "the end is not the block time and the voting period"
		}
		if !(len(sched) >= 4 && sched[2] == et) {
			bad = "completion is not scheduled for the stored end"
		}
		c.oblige(bad == "", "a proposal is stored with its author's vote, and its completion scheduled", shortFn(propose), bad, "; ", p.exit(c))
	}
	c.oblige(np > 0, "reachable success", shortFn(propose), "")
}

func emptyList(v *V) bool {
	if v.k == KNil || v.k == KZero || v.k == KList && len(v.args) == 0 {
		return true
	}
	return false
}

func evStr(es []Ev) string {
	s := []string{}
	for _, e := range es {
		n := e.Kind + " " + e.Store
		if e.Fn != nil {
			n += shortFn(e.Fn)
		}
		s = append(s, n+" "+List(e.Args...).str(5))
	}
	return strings.Join(s, " | ")
}

// msgPath is a field (of a field...) of the message a handler gets.
func (c *Check) msgPath(f *ssa.Function, m *V, names ...string) *V {
	t := f.Signature.Params().At(f.Signature.Params().Len() - 1).Type()
	for _, n := range names {
		v := fieldVal(m, t, n)
		if v == nil {
			c.oblige(false, "anchor", shortFn(f), "no field ", n)
			return nil
		}
		m, t = v, fieldType(t, n)
	}
	return m
}

func fieldType(t types.Type, name string) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

// below reads a comparison as the integer form that is below zero when the atom has the value given.
func below(a *V, val bool) (lin, bool) {
	for a.is("not") {
		a, val = a.args[0], !val
	}
	if !a.is("lt") {
		return nil, false
	}
	x, y := linOf(a.args[0]), linOf(a.args[1])
	if val {
		return x.plus(y, -1), true
	}
	return y.plus(x, -1).plus(lin{nil: 1}, -1), true
}

func (l lin) constant() (int64, bool) {
	if len(l) == 0 {
		return 0, true
	}
	if len(l) == 1 && l[nil] != 0 {
		return l[nil], true
	}
	return 0, false
}

// oneShort evaluates a comparison under the hypothesis that the integer x is one less than (or, if not short, the same
// as) the integer y.
func oneShort(a *V, short bool, x, y func(*V) bool) (bool, bool) {
	neg := false
	for a.is("not") {
		a, neg = a.args[0], !neg
	}
	var l lin
	if a.is("lt") || a.is("eq") {
		l = linOf(a.args[0]).plus(linOf(a.args[1]), -1)
	} else {
		return false, false
	}
	cx, cy, k := int64(0), int64(0), int64(0)
	for t, co := range l {
		switch {
		case t == nil:
			k += co
		case x(t):
			cx += co
		case y(t):
			cy += co
		default:
			return false, false
		}
	}
	if cx == 0 || cx != -cy {
		return false, false
	}
	if short {
		k -= cx
	}
	if a.is("eq") {
		return (k == 0) != neg, true
	}
	return (k < 0) != neg, true
}

func ruleTally(c *Check) {
	k := c.votKeys()
	end := c.method(votK, "Keeper", "EndProposal")
	if k == nil || end == nil {
		return
	}
	gt := c.P.typ(votT, "Government")
	n := 0
	// the stored lists' lengths under names of their own
	canon := func(l lin) lin {
		r := lin{}
		for t, co := range l {
			if t != nil && t.is("len") {
				for _, key := range []string{k.gov, k.agreed, k.disagreed} {
					if readOf(t, key) && t.args[0].hasOp("field:") && strings.HasSuffix(t.args[0].op, ".Members") {
						t = Sym("len:" + key)
						break
					}
				}
			}
			r = r.plus(lin{t: co}, 1)
		}
		return r
	}
	below := func(a *V, val bool) (lin, bool) {
		l, ok := below(a, val)
		return canon(l), ok
	}
	for _, en := range []struct {
		typ, name string
		timeout   bool
	}{{"MsgServer", "Propose", false}, {"MsgServer", "Vote", false}, {"Keeper", "ProcessSchedule", true}} {
		f := c.method(votK, en.typ, en.name)
		if f == nil {
			return
		}
		args := []*V{Sym("keeper"), Sym("ctx"), Sym("msg")}
		if en.timeout {
			args = []*V{Sym("keeper"), Sym("ctx"), Sym("data"), Sym("time")}
		}
		for _, p := range c.paths(f, args, pathOpts{inline: anyRepo, unroll: 1, hyp: wellCoded, watch: set(end), watchI: inPkg(schedK), reads: true}) {
			if p.O.panic || !en.timeout && !p.Ok {
				continue
			}
			// the numbers of votes, as stored in the end
			size := func(key string) lin {
				var val *V
				for _, e := range p.Ev {
					if e.Kind == "Set" && fullKey(e) == key {
						val = e.Args[1]
						if val.is("encode") {
							val = val.args[0]
						}
					}
					if e.Kind == "Get" && fullKey(e) == key && val == nil {
						val = rawApp("decode", rawApp("call:invoke:github.com/cosmos/cosmos-sdk/store/types.KVStore.Get", e.Recv, e.Args[0]))
						for at, v := range p.facts() {
							if there, ok := absent(at, key, true); ok && there != v {
								val = Zero(gt)
							}
						}
					}
				}
				if val == nil {
					return nil
				}
				m := fieldVal(val, gt, "Members")
				if emptyList(m) {
					return lin{}
				}
				return canon(linOf(App("len", m)))
			}
			g, a, d := size(k.gov), size(k.agreed), size(k.disagreed)
			i := p.first(calls(end))
			if g == nil || a == nil || d == nil {
				c.oblige(i < 0, "a decision is made of the votes", shortFn(f), "made without reading them; ", p.exit(c))
				continue
			}
			full := g.plus(a, -1).plus(d, -1)
			complete, known := false, false
			for at, v := range p.facts() {
				if at.is("eq") {
					if l := canon(linOf(at.args[0]).plus(linOf(at.args[1]), -1)); l.same(full) || l.same(lin{}.plus(full, -1)) {
						complete, known = v, true
					}
				}
				if l, ok := below(at, v); ok {
					if x, isC := l.plus(full, 1).constant(); isC && x >= 0 { // members exceed votes
						complete, known = false, true
					}
				}
			}
			if z, ok := full.constant(); ok && !known {
				complete, known = z == 0, true
			}
			if i < 0 {
				c.oblige(known && !complete, "a proposal is decided as soon as everybody has voted", shortFn(f), "it isn't: ", full.String(), " facts ", p.factStr("len"), "; ", p.exit(c))
				continue
			}
			n++
			e := p.Ev[i]
			res := stripIface(e.Args[3])
			if v, ok := p.known(res); ok && !v {
				// rejected for sure: fine when not everybody has voted, and else when the votes say so
				if known && !complete {
					c.oblige(en.timeout, "nothing is decided before everybody has voted", shortFn(f), p.exit(c))
					continue
				}
			}
			if !c.oblige(known && complete, "nothing is accepted before everybody has voted", shortFn(f), "incomplete: ", full.String(), " facts ", p.factStr("len"), "; ", p.exit(c)) {
				continue
			}
			// accepted means at least two thirds: 2d - a <= 0
			sub := func(l lin) lin {
				// the number of members is the sum of the votes
				for t, co := range full {
					if t != nil && (co == 1 || co == -1) && a[t] == 0 && d[t] == 0 {
						rest := full.plus(lin{t: 1}, -co)
						return l.subst(t, lin{}.plus(rest, -co))
					}
				}
				return l
			}
			accept := lin{}.plus(d, 2).plus(a, -1).plus(lin{nil: 1}, -1)
			reject := a.plus(d, -2)
			ok := false
			what := res.str(6)
			if l, isCmp := below(res, true); isCmp {
				l = sub(l)
				if x, isC := l.constant(); isC {
					y, isC2 := accept.constant()
					ok = isC2 && (x < 0) == (y < 0)
				} else {
					ok = l.same(accept)
				}
				what = l.String()
			} else if v, isK := p.known(res); isK {
				w := reject
				if v {
					w = accept
				}
				if y, isC := w.constant(); isC {
					ok = y < 0
				}
				for at, fv := range p.facts() {
					if l, isCmp := below(at, fv); isCmp && sub(l).same(w) {
						ok = true
					}
				}
			}
			c.oblige(ok, "accepted if at least two thirds are for it", shortFn(f), what, "; ", p.exit(c))
			// the proposal decided is the one stored
			c.oblige(readOf(e.Args[2], k.cur) || en.name == "Propose" && hasFieldNamed(e.Args[2], "Proposal"), "the stored proposal is decided", shortFn(f), e.Args[2].str(6))
		}
	}
	c.oblige(n >= 4, "reachable decision", "voting", n, " decisions seen")
	// nobody else decides
	roots := map[*ssa.Function]bool{}
	for _, r := range []string{"Propose", "Vote", "ProcessSchedule"} {
		roots[c.method(votK, "Keeper", r)] = true
	}
	for _, ci := range c.P.callSites(end) {
		ok, w := c.P.confined(ci.Parent(), roots)
		c.oblige(ok, "decisions are made by votes only", shortFn(ci.Parent()), "called from ", c.P.pos(ci.Pos()), via(w))
	}
}

func via(w *ssa.Function) string {
	if w == nil {
		return ""
	}
	return ", reached from " + shortFn(w)
}

// effect of a proposal type: a parameter set and field (or a list in it), or another store.
type effect struct {
	args, src     string // the oneof wrapper type of the arguments; the field the value comes from
	params, field string
	list          int // +1, -1
	valid         bool
}

var decisionEffects = map[string]effect{
	"ENTER_PRICE":                  {"Price", "Price", "profile", "SubscriptionPrice", 0, false},
	"PRODUCT_VPN_BASE_PRICE":       {"Price", "Price", "profile", "VpnGbPrice", 0, false},
	"PRODUCT_STORAGE_BASE_PRICE":   {"Price", "Price", "profile", "StorageGbPrice", 0, false},
	"TRANSITION_PRICE":             {"Price", "Price", "referral", "TransitionPrice", 0, false},
	"MIN_SEND":                     {"MinAmount", "MinAmount", "bank", "MinSend", 0, false},
	"MIN_DELEGATE":                 {"MinAmount", "MinAmount", "delegating", "MinDelegate", 0, false},
	"DUST_DELEGATION":              {"MinAmount", "MinAmount", "bank", "DustDelegation", 0, false},
	"MAX_TRANSACTION_FEE":          {"MinAmount", "MinAmount", "bank", "MaxTransactionFee", 0, true},
	"MAX_VALIDATORS":               {"Count", "Count", "noding", "MaxValidators", 0, false},
	"LUCKY_VALIDATORS":             {"Count", "Count", "noding", "LotteryValidators", 0, false},
	"JAIL_AFTER":                   {"Count", "Count", "noding", "JailAfter", 0, false},
	"VALIDATOR_MINIMAL_CRITERIA":   {"MinCriteria", "MinCriteria", "noding", "MinCriteria", 0, false},
	"VOTING_POWER":                 {"VotingPower", "VotingPower", "noding", "VotingPower", 0, false},
	"TRANSACTION_FEE":              {"Portion", "Fraction", "bank", "TransactionFee", 0, true},
	"TRANSACTION_FEE_SPLIT_RATIOS": {"Portions", "Fractions", "bank", "TransactionFeeSplitRatios", 0, true},
	"ACCRUE_PERCENTAGE_TABLE":      {"AccruePercentageTable", "AccruePercentageTable", "delegating", "AccruePercentageTable", 0, true},
	"REVOKE":                       {"Revoke", "Revoke", "delegating", "Revoke", 0, false},
	"EXPRESS_REVOKE":               {"Revoke", "Revoke", "delegating", "ExpressRevoke", 0, false},
	"FREE_CREATOR_ADD":             {"Address", "Address", "profile", "Creators", 1, false},
	"FREE_CREATOR_REMOVE":          {"Address", "Address", "profile", "Creators", -1, false},
	"TOKEN_RATE_SIGNER_ADD":        {"Address", "Address", "profile", "TokenRateSigners", 1, false},
	"TOKEN_RATE_SIGNER_REMOVE":     {"Address", "Address", "profile", "TokenRateSigners", -1, false},
	"VPN_SIGNER_ADD":               {"Address", "Address", "profile", "VpnSigners", 1, false},
	"VPN_SIGNER_REMOVE":            {"Address", "Address", "profile", "VpnSigners", -1, false},
	"STORAGE_SIGNER_ADD":           {"Address", "Address", "profile", "StorageSigners", 1, false},
	"STORAGE_SIGNER_REMOVE":        {"Address", "Address", "profile", "StorageSigners", -1, false},
	"EARNING_SIGNER_ADD":           {"Address", "Address", "earning", "Signers", 1, false},
	"EARNING_SIGNER_REMOVE":        {"Address", "Address", "earning", "Signers", -1, false},
	"BLOCKED_SENDER_ADD":           {"Address", "Address", "bank", "BlockedSenders", 1, false},
	"BLOCKED_SENDER_REMOVE":        {"Address", "Address", "bank", "BlockedSenders", -1, false},
	"GOVERNMENT_ADD":               {"Address", "Address", "", "government", 1, false},
	"GOVERNMENT_REMOVE":            {"Address", "Address", "", "government", -1, false},
	"STAFF_VALIDATOR_ADD":          {"Address", "Address", "", "staff", 1, false},
	"STAFF_VALIDATOR_REMOVE":       {"Address", "Address", "", "staff", -1, false},
	"SOFTWARE_UPGRADE":             {"SoftwareUpgrade", "", "", "ScheduleUpgrade", 0, false},
	"CANCEL_SOFTWARE_UPGRADE":      {"", "", "", "ClearUpgradePlan", 0, false},
	"GENERAL_AMNESTY":              {"", "", "", "amnesty", 0, false},
	"DELEGATION_AWARD":             {"DelegationAward", "", "", "", 0, false},
	"DELEGATION_NETWORK_AWARD":     {"NetworkAward", "", "", "", 0, false},
	"PRODUCT_NETWORK_AWARD":        {"NetworkAward", "", "", "", 0, false},
	"VALIDATOR_MINIMAL_STATUS":     {"Status", "", "", "", 0, false},
	"REVOKE_PERIOD":                {"Period", "", "", "", 0, false},
	"VALIDATOR_BONUS":              {"Portion", "", "", "", 0, false},
	"SUBSCRIPTION_BONUS":           {"Portion", "", "", "", 0, false},
	"VPN_BONUS":                    {"Portion", "", "", "", 0, false},
	"STORAGE_BONUS":                {"Portion", "", "", "", 0, false},
	"VALIDATOR":                    {"Portion", "", "", "", 0, false},
	"BURN_ON_REVOKE":               {"Portion", "", "", "", 0, false},
	"ACCRUE_PERCENTAGE_RANGES":     {"AccruePercentageRanges", "", "", "", 0, false},
	"UNSPECIFIED":                  {"", "", "", "", 0, false},
}

// pureArg: the value is just the argument of the proposal, at most converted.
func pureArg(v, args *V, last string) bool {
	hit := last == ""
	for d := 0; d < 12; d++ {
		v = stripIface(v)
		if v == args {
			return hit
		}
		if v.k == KApp && len(v.args) > 0 && (v.hasOp("field:") || v.hasOp("conv:") || v.is("conv") || v.is("index")) {
			if v.hasOp("field:") && strings.HasSuffix(v.op, "."+last) {
				hit = true
			}
			v = v.args[0]
			continue
		}
		return false
	}
	return false
}

// overrides lists the fields a struct value changes with respect to its base.
func overrides(v *V) (*V, map[string]*V) {
	m := map[string]*V{}
	for v = stripIface(v); v.k == KStruct; v = stripIface(v) {
		for i := 1; i+1 < len(v.args); i += 2 {
			if !isFieldSel(v.args[i]) {
				return v, nil
			}
			n := fieldName(v.args[i])
			if _, ok := m[n]; !ok {
				m[n] = v.args[i+1]
			}
		}
		v = v.args[0]
	}
	return v, m
}

// listChange checks that list is old with x added (unless there) or removed (if there).
func (p *Path) listChange(list, old, x *V, dir int) string {
	at := -1 // the element known to equal x
	for a, v := range p.facts() {
		if !v || !a.is("eq") && !strings.Contains(a.op, "Equal") || len(a.args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			if a.args[i] == x && a.args[1-i].is("index") && a.args[1-i].args[0] == old {
				if n, ok := intOf(a.args[1-i].args[1]); ok {
					at = int(n)
				}
			}
		}
	}
	if dir > 0 {
		if at >= 0 || list == nil {
			if list == nil || list == old {
				if at < 0 {
					return "not added"
				}
				return ""
			}
			return "listed twice"
		}
		if list.is("append") && len(list.args) == 2 && list.args[0] == old && list.args[1] == x {
			return ""
		}
		if list.k == KList && len(list.args) == 1 && list.args[0] == x && emptyList(old) {
			return ""
		}
		return "becomes " + list.str(6)
	}
	if at < 0 {
		if list == nil || list == old {
			return ""
		}
		return "changed though not listed"
	}
	if list == nil || list == old {
		return "not removed"
	}
	last := App("bin:+", App("len", old), Int(-1))
	if list.is("slice") && list.args[0] == old && (list.args[1].k == KNil || list.args[1] == Int(0)) && linOf(list.args[2]).same(linOf(last)) {
		m, ok := p.O.st.mem[old]
		if ok && linOf0(project(m, Int(int64(at)))) == linOf0(App("index", old, last)) {
			return ""
		}
		if ok && m.k == KStruct {
			for i := 1; i+1 < len(m.args); i += 2 {
				if n, isN := intOf(m.args[i]); isN && int(n) == at && m.args[i+1].is("index") && m.args[i+1].args[0] == old && linOf(m.args[i+1].args[1]).same(linOf(last)) {
					return ""
				}
			}
		}
		for a, v := range p.facts() { // it is the last one
			if v && a.is("eq") {
				if d := linOf(a.args[0]).plus(linOf(a.args[1]), -1); d.same(lin{nil: int64(at)}.plus(linOf(last), -1)) || d.same(linOf(last).plus(lin{nil: int64(at)}, -1)) {
					return ""
				}
			}
		}
		return "the last one is removed instead"
	}
	if list.is("concat") && len(list.args) == 2 && list.args[0].is("slice") && list.args[1].is("slice") &&
		list.args[0].args[0] == old && list.args[1].args[0] == old && list.args[0].args[2] == Int(int64(at)) && list.args[1].args[1] == Int(int64(at+1)) {
		return ""
	}
	if !mention(list, x) && !list.mentions(func(y *V) bool { return y.is("index") && y.args[0] == old && y.args[1] == Int(int64(at)) }) && !mention1(list, old) {
		return ""
	}
	return "becomes " + list.str(6)
}

func linOf0(v *V) *V { return v }

// mention1: v contains w other than as the list indexed.
func mention1(v, w *V) bool {
	if v == w {
		return true
	}
	if v.is("index") && v.args[0] == w {
		return false
	}
	for _, a := range v.args {
		if a != nil && mention1(a, w) {
			return true
		}
	}
	return false
}

func ruleDecisionEffect(c *Check) {
	k := c.votKeys()
	end := c.method(votK, "Keeper", "EndProposal")
	pt := c.P.typ(votT, "Proposal")
	if k == nil || end == nil || pt == nil {
		return
	}
	prop := Sym("proposal")
	typ, pargs := fieldVal(prop, pt, "Type"), fieldVal(prop, pt, "Args")
	enum := c.P.enum(votT, "ProposalType")
	hist := ""
	nodingStore := ""
	if f := c.method("x/noding/keeper", "Keeper", "Get"); f != nil {
		nodingStore = strings.SplitN(c.getterKey("x/noding/keeper", "Keeper", "Get", Sym("acc")), ":", 2)[0]
	}
	_ = hist
	names := []string{}
	for n := range enum {
		names = append(names, n)
	}
	sort.Strings(names)
	seen := 0
	for _, full := range names {
		name := strings.TrimPrefix(full, "PROPOSAL_TYPE_")
		ef, ok := decisionEffects[name]
		if !c.oblige(ok, "every kind of decision has a known effect", name, "unknown kind") {
			continue
		}
		hyp := func(x *Exec, a *V, st *State) (bool, bool) {
			if a.is("eq") {
				for i := 0; i < 2; i++ {
					if a.args[i] == typ {
						if k, ok := intOf(a.args[1-i]); ok {
							return k == enum[full], true
						}
					}
				}
			}
			if a.hasOp("typeis:") && stripIface(a.args[0]) == pargs {
				return a.op == "typeis:"+votT+".Proposal_"+ef.args, true
			}
			if a.is("isnil") && pureArg(a.args[0], pargs, "") { // the argument is complete
				return ef.args == "", true
			}
			return wellCoded(x, a, st)
		}
		inst := "kind " + name
		upd := map[*ssa.Function]bool{}
		if ef.field == "staff" { // what follows for an active validator is the noding's business
			upd = set(c.method("x/noding/keeper", "Keeper", "OnStatusUpdate"), c.method("x/noding/keeper", "Keeper", "OnStakeChanged"))
		}
		upg := func(ci *CallInfo) bool {
			return inPkg(schedK)(ci) || strings.Contains(ci.Name, "x/upgrade/keeper.Keeper") || strings.Contains(ci.Name, "UprgadeKeeper.")
		}
		for _, agreed := range []bool{true, false} {
			effects := 0
			total := 0
			for _, p := range c.paths(end, []*V{Sym("keeper"), Sym("ctx"), prop, Bool(agreed)}, pathOpts{inline: anyRepo, unroll: 1, watchI: upg, watch: upd, hyp: hyp}) {
				if p.O.panic {
					continue
				}
				total++
				var es []Ev
				for _, e := range p.Ev {
					if e.Kind == "call" && e.Fn != nil && fnPkgPath(e.Fn) == modPath+"/"+schedK {
						continue
					}
					if (e.Kind == "Set" || e.Kind == "Delete") && strings.HasPrefix(k.gov, e.Store+":") && fullKey(e) != k.gov {
						continue // the voting's own records: V05
					}
					if e.Kind == "dyn" || e.Fn != nil && upd[e.Fn] && agreed {
						continue
					}
					es = append(es, e)
				}
				bad := ""
				if !agreed || ef.params == "" && ef.field == "" {
					if len(es) > 0 {
						bad = "has an effect: " + evStr(es)
					}
				} else if len(es) > 0 && ef.field != "amnesty" && len(es) != 1 {
					bad = "has several effects: " + evStr(es)
				} else {
					effects += len(es)
					bad = c.decisionBad(p, es, ef, pargs, k, nodingStore)
				}
				rule := "an accepted proposal changes what it is about and nothing else"
				if !agreed {
					rule = "a rejected proposal changes nothing"
				}
				c.oblige(bad == "", rule, inst, bad, "; ", p.exit(c))
			}
			c.oblige(total > 0, "reachable", inst, "the end of the voting is not reached")
			if agreed && (ef.params != "" || ef.field != "") {
				c.oblige(effects > 0, "an accepted proposal is carried out", inst, "never")
			}
		}
		seen++
	}
	c.oblige(seen >= 40, "kinds of decisions", "ProposalType", seen)
	// proposals whose arguments are of another kind are not accepted
	vb := c.method(votT, "MsgPropose", "ValidateBasic")
	if vb == nil {
		return
	}
	m := Sym("msg")
	mp := fieldVal(m, vb.Signature.Recv().Type(), "Proposal")
	mt, ma := fieldVal(mp, pt, "Type"), fieldVal(mp, pt, "Args")
	for _, full := range names {
		ef := decisionEffects[strings.TrimPrefix(full, "PROPOSAL_TYPE_")]
		if full == "PROPOSAL_TYPE_UNSPECIFIED" {
			ef.args = "?"
		}
		var bad []string
		for _, p := range c.paths(vb, []*V{m}, pathOpts{inline: anyRepo, unroll: 1, hyp: func(x *Exec, a *V, st *State) (bool, bool) {
			if a.is("eq") {
				for i := 0; i < 2; i++ {
					if a.args[i] == mt {
						if k, ok := intOf(a.args[1-i]); ok {
							return k == enum[full], true
						}
					}
				}
			}
			if a.hasOp("typeis:") && stripIface(a.args[0]) == ma {
				return a.op != "typeis:"+votT+".Proposal_"+ef.args, true
			}
			if a.is("isnil") && stripIface(a.args[0]) == ma {
				return false, true
			}
			return false, false
		}}) {
			if p.Ok && !p.O.panic {
				bad = append(bad, p.exit(c))
			}
		}
		c.oblige(len(bad) == 0, "a proposal's arguments are of its kind", "kind "+strings.TrimPrefix(full, "PROPOSAL_TYPE_"), "others are valid; ", bad)
	}
}

// decisionBad says what is wrong with the effects of an accepted proposal on a path.
func (c *Check) decisionBad(p *Path, es []Ev, ef effect, pargs *V, k *votKeys, nodingStore string) string {
	var e Ev
	if len(es) > 0 {
		e = es[0]
	}
	// the address in question
	var addr *V
	if ef.args == "Address" {
		for _, x := range append(append([]Ev{}, es...), Ev{}) {
			List(x.Args...).mentions(func(y *V) bool {
				if pureArg(y, pargs, "Address") && y.hasOp("field:") && strings.HasSuffix(y.op, "AddressArgs.Address") {
					addr = y
				}
				return false
			})
		}
		for a := range p.facts() {
			a.mentions(func(y *V) bool {
				if addr == nil && y.hasOp("field:") && strings.HasSuffix(y.op, "AddressArgs.Address") && pureArg(y, pargs, "Address") {
					addr = y
				}
				return false
			})
		}
	}
	switch {
	case ef.params != "":
		old := rawApp("params:x/" + ef.params + "/types.Params")
		for a := range p.facts() {
			a.mentions(func(y *V) bool {
				if y.op == old.op {
					old = y
				}
				return false
			})
		}
		pt := c.P.typ("x/"+ef.params+"/types", "Params")
		oldF := fieldVal(old, pt, ef.field)
		if pt == nil || oldF == nil {
			return "no parameter " + ef.field
		}
		var list *V
		if len(es) == 0 {
			if ef.list == 0 {
				if ef.valid && p.failedCheck() {
					return ""
				}
				return "no effect"
			}
		} else {
			if e.Kind != "Params" || len(e.Args) != 1 {
				return "unexpected effect " + evStr(es)
			}
			base, over := overrides(e.Args[0])
			if base.op != old.op || over == nil {
				return "sets " + e.Args[0].str(4)
			}
			old, oldF = base, fieldVal(base, pt, ef.field)
			for f, v := range over {
				if f == ef.field || v.hasOp("param") || v == fieldVal(old, pt, f) {
					continue
				}
				return "changes " + f
			}
			list = over[ef.field]
			if list == nil {
				list = oldF
			}
		}
		if ef.list != 0 {
			if addr == nil {
				if list == nil || list == oldF {
					// an empty list
					if v, ok := p.known(App("lt", Int(0), App("len", oldF))); ok && !v && ef.list < 0 {
						return ""
					}
				}
				return "the address is not looked at"
			}
			return p.listChange(list, oldF, addr, ef.list)
		}
		if ef.field == "TransactionFeeSplitRatios" {
			_, over := overrides(list)
			for i, f := range []string{"ForProposer", "ForCompany"} {
				v := over[f]
				if v == nil || !v.is("index") || v.args[1] != Int(int64(i)) || !pureArg(v, pargs, ef.src) {
					return f + " is wrong"
				}
			}
			return ""
		}
		if !pureArg(list, pargs, ef.src) {
			return ef.field + " becomes " + list.str(5)
		}
		return ""
	case ef.field == "government":
		if len(es) == 0 {
			if ef.list < 0 {
				return "" // decided by the store event below if there is one
			}
			if addr == nil {
				return "the address is not looked at"
			}
		}
		gt := c.P.typ(votT, "Government")
		var list, old *V
		if len(es) == 1 {
			if e.Kind != "Set" || fullKey(e) != k.gov || !e.Args[1].is("encode") {
				return "unexpected effect " + evStr(es)
			}
			list = fieldVal(e.Args[1].args[0], gt, "Members")
		}
		for a := range p.facts() {
			a.mentions(func(y *V) bool {
				if y.hasOp("field:") && strings.HasSuffix(y.op, "Government.Members") && readOf(y, k.gov) && y.args[0].is("decode") {
					old = y
				}
				return false
			})
		}
		if old == nil || addr == nil {
			if ef.list < 0 && (list == nil || list == old || list.hasOp("field:") && readOf(list, k.gov)) {
				return ""
			}
			return "the members are not looked at"
		}
		return p.listChange(list, old, addr, ef.list)
	case ef.field == "staff":
		if len(es) == 0 {
			return "" // already so, or no such validator
		}
		if e.Kind != "Set" || e.Store != nodingStore || addr == nil || !mention(e.Args[0], addr) || !e.Args[1].is("encode") {
			return "unexpected effect " + evStr(es)
		}
		_, over := overrides(e.Args[1].args[0])
		for f, v := range over {
			if f == "Staff" && v == Bool(ef.list > 0) {
				continue
			}
			return "sets " + f
		}
		if over["Staff"] == nil {
			return "Staff is not set"
		}
		return ""
	case ef.field == "amnesty":
		for _, e := range es {
			if e.Kind != "Set" || e.Store != nodingStore || !e.Args[1].is("encode") {
				return "unexpected effect " + evStr(es)
			}
			_, over := overrides(e.Args[1].args[0])
			for f := range over {
				if f != "Strokes" && f != "JailCount" && f != "Score" {
					return "sets " + f
				}
			}
			if over["Strokes"] != Int(0) || over["JailCount"] != Int(0) {
				return "strokes and jail counts are not reset"
			}
		}
		return ""
	default: // the upgrade module
		if len(es) == 0 || e.Kind != "call" && e.Kind != "dyn" {
			return "no effect"
		}
		if e.At == nil || !callNamed(e.At, ef.field) {
			return "unexpected effect " + evStr(es)
		}
		if ef.args != "" {
			_, over := overrides(e.Args[len(e.Args)-1])
			for _, f := range []string{"Name", "Info"} {
				if over[f] == nil || !pureArg(over[f], pargs, f) {
					return "the plan's " + f + " is not the proposed one"
				}
			}
			if t := over["Time"]; t != nil && !pureArg(t, pargs, "Time") {
				return "the plan's time is not the proposed one"
			} else if t == nil {
				none := false
				for a, v := range p.facts() {
					if a.is("isnil") && v && pureArg(a.args[0], pargs, "Time") {
						none = true
					}
				}
				if !none {
					return "the plan's time is not set"
				}
			}
		}
		return ""
	}
}

// failedCheck: some validation is known to have failed on the path.
func (p *Path) failedCheck() bool {
	for a, v := range p.facts() {
		if !v && a.is("isnil") && a.args[0].k == KApp {
			return true
		}
	}
	return len(p.facts()) > 0
}

func callNamed(in ssa.Instruction, name string) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if ci.Common().IsInvoke() {
		return ci.Common().Method.Name() == name
	}
	if f := ci.Common().StaticCallee(); f != nil {
		return f.Name() == name
	}
	return false
}

// enum: the constants of a named integer type by name.
func (P *Program) enum(rel, name string) map[string]int64 {
	r := map[string]int64{}
	t := P.typ(rel, name)
	if t == nil {
		return r
	}
	if n, ok := t.(*types.Named); ok {
		sc := n.Obj().Pkg().Scope()
		for _, x := range sc.Names() {
			if k, ok := sc.Lookup(x).(*types.Const); ok && types.Identical(k.Type(), t) {
				if v, ok := intOf(Const(k.Val())); ok {
					r[x] = v
				}
			}
		}
	}
	return r
}

// ruleVotingLifecycle: what the end of a proposal leaves behind.
func ruleVotingLifecycle(c *Check) {
	k := c.votKeys()
	end := c.method(votK, "Keeper", "EndProposal")
	proc := c.method(votK, "Keeper", "ProcessSchedule")
	pt := c.P.typ(votT, "Proposal")
	ht := c.P.typ(votT, "ProposalHistoryRecord")
	gt := c.P.typ(votT, "Government")
	if k == nil || end == nil || proc == nil || pt == nil || ht == nil {
		return
	}
	prop := Sym("proposal")
	typ := fieldVal(prop, pt, "Type")
	hook, _ := c.P.constOf(votT, "VoteHookName")
	n := 0
	for _, agreed := range []bool{true, false} {
		for _, p := range c.paths(end, []*V{Sym("keeper"), Sym("ctx"), prop, Bool(agreed)}, pathOpts{inline: anyRepo, unroll: 1, reads: true, watchI: inPkg(schedK), hyp: func(x *Exec, a *V, st *State) (bool, bool) {
			if a.is("eq") && (a.args[0] == typ || a.args[1] == typ) {
				return false, true
			}
			return wellCoded(x, a, st)
		}}) {
			if p.O.panic {
				continue
			}
			n++
			gone := map[string]int{}
			hist, removed, bad := -1, false, ""
			for i, e := range p.Ev {
				switch {
				case e.Kind == "Delete":
					gone[fullKey(e)] = i
				case e.Kind == "Get":
					if _, ok := gone[fullKey(e)]; ok {
						bad = "reads what it has deleted"
					}
				case e.Kind == "Set" && e.Args[1].is("encode"):
					if v := e.Args[1].args[0]; typeHas(v, ht) {
						hist = i
						for f, want := range map[string]string{"Proposal": k.cur, "Government": k.gov, "Agreed": k.agreed, "Disagreed": k.disagreed, "Started": k.start} {
							x := fieldVal(v, ht, f)
							if x == nil || !readOf(x, want) && !(emptyList(x) && p.unread(want)) {
								if f == "Proposal" && x == prop {
									continue
								}
								bad = "history's " + f + " is not what was stored"
							}
						}
						if x := fieldVal(v, ht, "Finished"); x == nil || !mention(x, rawApp("blockheight")) {
							bad = "history's Finished is not the block"
						}
						if !mention(e.Args[0], rawApp("blockheight")) {
							bad = "history is kept under another key"
						}
					}
				case e.Kind == "call" && (e.Fn.Name() == "DeleteAll" || e.Fn.Name() == "Delete") && len(e.Args) >= 4:
					if pureArg(e.Args[2], prop, "EndTime") && e.Args[3] == Str(hook) {
						removed = true
					}
				case e.Kind == "call":
					bad = "calls " + shortFn(e.Fn)
				}
			}
			for what, key := range map[string]string{"the current proposal": k.cur, "votes for": k.agreed, "votes against": k.disagreed, "the starting block": k.start} {
				if _, ok := gone[key]; !ok {
					bad = what + " is not removed"
				}
			}
			if len(gone) > 4 {
				bad = "removes something else"
			}
			if hist < 0 {
				bad = "no history is kept"
			}
			if !removed {
				bad = "the scheduled completion is not removed"
			}
			c.oblige(bad == "", "the end of a voting leaves its history and nothing else", shortFn(end), bad, "; ", p.exit(c))
		}
	}
	c.oblige(n > 0 && hook != "", "reachable end", shortFn(end), n)
	_ = gt
	// the completion in time
	m := 0
	for _, p := range c.paths(proc, []*V{Sym("keeper"), Sym("ctx"), Sym("data"), Sym("time")}, pathOpts{inline: anyRepo, unroll: 1, watch: set(end), hyp: func(x *Exec, a *V, st *State) (bool, bool) {
		if v, ok := absent(a, k.cur, true); ok {
			return v, ok
		}
		return wellCoded(x, a, st)
	}}) {
		if p.O.panic {
			continue
		}
		m++
		k := 0
		for _, e := range p.Ev {
			if e.Kind == "call" && e.Fn == end {
				k++
			}
		}
		c.oblige(k == 1, "the voting ends when its time comes", shortFn(proc), "ended ", k, " times; ", p.exit(c))
	}
	c.oblige(m > 0, "reachable completion", shortFn(proc), "")
	// nobody else touches these records
	c.votingWriters()
}

// unread: nothing is known to be stored under the key.
func (p *Path) unread(key string) bool {
	for a, v := range p.facts() {
		if there, ok := absent(a, key, true); ok && there != v {
			return true
		}
	}
	return false
}

// typeHas: the struct value is (a change) of the zero value or a value of type t.
func typeHas(v *V, t types.Type) bool {
	v = stripIface(v)
	for i := 1; v.k == KStruct && i < len(v.args); i += 2 {
		if isFieldSel(v.args[i]) && strings.HasPrefix(v.args[i].op, "sel:"+typeName(t)+".") {
			return true
		}
	}
	return false
}

// constOf is the value of a string constant.
func (P *Program) constOf(rel, name string) (string, bool) {
	pk := P.pkg(rel)
	if pk == nil {
		return "", false
	}
	k, ok := pk.Pkg.Scope().Lookup(name).(*types.Const)
	if ok && k.Val().Kind() == constant.Int {
		return k.Val().ExactString(), true
	}
	if !ok || k.Val().Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Val()), true
}

// votingWriters: the voting store is written by the voting messages and its scheduled tasks only (and the genesis).
func (c *Check) votingWriters() {
	c.storeWriters("voting records change by voting only", "voting", 8, [][3]string{{votK, "MsgServer", "Propose"}, {votK, "MsgServer", "Vote"}, {votK, "MsgServer", "StartPoll"},
		{votK, "MsgServer", "AnswerPoll"}, {votK, "Keeper", "ProcessSchedule"}, {votK, "Keeper", "EndPollHandler"}})
}

// storeWriters: block processing writes the store through the functions given only.
func (c *Check) storeWriters(rule, store string, min int, through [][3]string) {
	allowed := map[*ssa.Function]bool{}
	for _, r := range through {
		if f := c.method(r[0], r[1], r[2]); f != nil {
			allowed[f] = true
		}
	}
	way := c.P.reachAvoiding(allowed)
	n := 0
	for _, op := range c.P.storeOps() {
		if op.Op != "Set" && op.Op != "Delete" || !op.Store[store] && !op.Store[""] {
			continue
		}
		if op.Store[store] {
			n++
		}
		_, bad := way[op.Fn]
		if bad && !op.Store[store] {
			c.oblige(false, rule, shortFn(op.Fn), op.Op, " on an unknown store, reached by ", wayTo(way, op.Fn))
			continue
		}
		c.oblige(!bad, rule, shortFn(op.Fn), op.Op, " reached by ", wayTo(way, op.Fn))
	}
	c.oblige(n >= min, "writes of the store", store, n, " found")
}

// ruleGovernedState: parameters, the government, the staff and the upgrade plan change by decision only.
func ruleGovernedState(c *Check) {
	end := c.method(votK, "Keeper", "EndProposal")
	rate := c.method("x/profile/keeper", "MsgServer", "SetRate")
	if end == nil || rate == nil {
		return
	}
	way := c.P.reachAvoiding(map[*ssa.Function]bool{end: true, rate: true})
	n, m := 0, 0
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" || isAppPkg(f) || !strings.HasPrefix(fnPkgPath(f), modPath+"/") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := ""
				var recv types.Type
				if ci.Common().IsInvoke() {
					name, recv = ci.Common().Method.Name(), ci.Common().Value.Type()
				} else if g := ci.Common().StaticCallee(); g != nil && g.Signature.Recv() != nil {
					name, recv = g.Name(), g.Signature.Recv().Type()
				}
				if recv == nil {
					continue
				}
				tn := strings.ToLower(typeName(recv))
				switch {
				case strings.Contains(tn, "subspace") && (name == "SetParamSet" || name == "Set" || name == "Update"):
					n++
				case name == "ScheduleUpgrade" || name == "ClearUpgradePlan":
					m++
				default:
					continue
				}
				_, bad := way[f]
				c.oblige(!bad, "parameters and upgrades change by decision only", shortFn(f), name, " reached by ", wayTo(way, f))
			}
		}
	}
	c.oblige(n >= 8 && m >= 2, "parameter writes", "x", n, " and ", m, " found")
	for _, t := range [][3]string{{votK, "Keeper", "SetGovernment"}, {"x/noding/keeper", "Keeper", "AddToStaff"}, {"x/noding/keeper", "Keeper", "RemoveFromStaff"}, {"x/noding/keeper", "Keeper", "GeneralAmnesty"}} {
		if f := c.method(t[0], t[1], t[2]); f != nil {
			_, bad := way[f]
			c.oblige(!bad, "the government, the staff and amnesties are decided", shortFn(f), "reached by ", wayTo(way, f))
		}
	}
	// the token rate has signers of its own; nothing else changes with it
	k := 0
	for _, p := range c.paths(rate, []*V{Sym("keeper"), Sym("ctx"), Sym("msg")}, pathOpts{inline: anyRepo, unroll: 1}) {
		for _, e := range p.Ev {
			if e.Kind != "Params" {
				continue
			}
			k++
			base, over := overrides(e.Args[len(e.Args)-1])
			bad := ""
			if len(e.Args) == 1 {
				if !base.hasOp("params:x/profile/types.Params") || over == nil {
					bad = "sets " + base.str(4)
				}
				for f, v := range over {
					if f != "TokenRate" && !v.hasOp("param") {
						bad = "changes " + f
					}
				}
			}
			c.oblige(bad == "", "setting the token rate changes nothing else", shortFn(rate), bad, "; ", p.exit(c))
		}
	}
	c.oblige(k > 0, "the token rate is set", shortFn(rate), "never")
}

// pollKeys finds the keys of the two counters.
func (c *Check) pollKeys() (yes, no string) {
	f := c.method(votK, "Keeper", "GetPollStatus")
	if f == nil {
		return
	}
	for _, p := range c.paths(f, []*V{Sym("keeper"), Sym("ctx")}, pathOpts{reads: true, unroll: 1}) {
		for _, e := range p.Ev {
			if e.Kind != "Get" || len(p.O.vals) != 2 {
				continue
			}
			if readOf(p.O.vals[0], fullKey(e)) {
				yes = fullKey(e)
			}
			if readOf(p.O.vals[1], fullKey(e)) {
				no = fullKey(e)
			}
		}
	}
	return
}

func rulePolls(c *Check) {
	k := c.votKeys()
	ans := c.method(votK, "MsgServer", "AnswerPoll")
	end := c.method(votK, "Keeper", "EndPollHandler")
	start := c.method(votK, "MsgServer", "StartPoll")
	qual := c.method("x/noding/keeper", "Keeper", "IsQualified")
	refGet := c.method("x/referral/keeper", "Keeper", "Get")
	pt := c.P.typ(votT, "Poll")
	if k == nil || ans == nil || end == nil || start == nil || qual == nil || refGet == nil || pt == nil {
		return
	}
	yesKey, noKey := c.pollKeys()
	if !c.oblige(yesKey != "" && noKey != "" && yesKey != noKey, "anchor", "GetPollStatus", "counters not found") {
		return
	}
	msg := Sym("msg")
	args := []*V{Sym("keeper"), Sym("ctx"), msg}
	who, yes := c.msgPath(ans, msg, "Respondent"), c.msgPath(ans, msg, "Yes")
	if who == nil || yes == nil {
		return
	}
	opt := pathOpts{inline: anyRepo, unroll: 1, hyp: wellCoded, watch: set(qual, refGet), watchI: inPkg(schedK)}
	c.refused("nobody answers without a poll", ans, args, opt, func(a *V) (bool, bool) { return absent(a, k.poll, false) })
	kind := func(a *V, want string) (bool, bool) {
		if a.hasOp("typeis:" + votT + ".Poll_") {
			return a.op == "typeis:"+votT+".Poll_"+want, true
		}
		return false, false
	}
	qop, rop := "call:"+canonName(qual), "call:"+canonName(refGet)
	okOf := func(a *V, op string) (bool, bool) { // the call succeeds
		if a.is("isnil") && a.args[0].mentions(func(y *V) bool { return strings.HasPrefix(y.op, op) && mention(y, who) }) {
			return true, true
		}
		return false, false
	}
	c.refused("only those who could validate answer, if so required", ans, args, opt, func(a *V) (bool, bool) {
		if v, ok := kind(a, "CanValidate"); ok {
			return v, ok
		}
		if v, ok := okOf(a, qop); ok {
			return v, ok
		}
		if !a.is("isnil") && a.mentions(func(y *V) bool { return strings.HasPrefix(y.op, qop) && mention(y, who) }) {
			return false, true
		}
		return false, false
	})
	status := func(short bool) func(a *V) (bool, bool) {
		return func(a *V) (bool, bool) {
			if v, ok := kind(a, "MinStatus"); ok {
				return v, ok
			}
			if v, ok := okOf(a, rop); ok {
				return v, ok
			}
			return oneShort(a, short, func(t *V) bool {
				return hasFieldNamed(t, "Status") && t.mentions(func(y *V) bool { return strings.HasPrefix(y.op, rop) && mention(y, who) })
			}, func(t *V) bool { return hasFieldNamed(t, "MinStatus") })
		}
	}
	c.refused("only those who have the status required answer", ans, args, opt, status(true))
	c.allowed("those who have the status required answer", ans, args, opt, status(false))
	// what an answer does
	answers := ""
	vals := map[bool]*V{}
	n := 0
	for _, p := range c.paths(ans, args, opt) {
		if !p.Ok || p.O.panic {
			continue
		}
		v, ok := p.known(yes)
		if !c.oblige(ok, "an answer is yes or no", shortFn(ans), "neither; ", p.exit(c)) {
			continue
		}
		n++
		count := noKey
		if v {
			count = yesKey
		}
		bad := ""
		var given, counted bool
		for _, e := range p.Ev {
			if e.Kind == "Delete" {
				bad = "deletes " + e.Store
			}
			if e.Kind == "call" && !(e.Fn == qual || e.Fn == refGet) {
				bad = "calls " + shortFn(e.Fn)
			}
			if e.Kind != "Set" {
				continue
			}
			if fullKey(e) == count {
				counted = !counted
				one := lin{nil: 1}
				l := linOf(unbytes(e.Args[1]))
				if rest := l.plus(one, -1); len(rest) > 0 {
					for t, co := range rest {
						if t == nil || co != 1 || len(rest) != 1 || !readOf(t, count) {
							bad = "the counter becomes " + l.String()
						}
					}
				} else if !p.unread(count) {
					bad = "the counter is started over"
				}
				continue
			}
			if mention(e.Args[0], who) {
				given = true
				if answers == "" {
					answers = fullKey(e)
				}
				if fullKey(e) != answers {
					bad = "answers are kept in different places"
				}
				if vals[v] == nil {
					vals[v] = e.Args[1]
				}
				if vals[v] != e.Args[1] {
					bad = "yes and no look the same"
				}
				continue
			}
			bad = "writes " + evStr([]Ev{e})
		}
		if !given || !counted {
			bad = "not recorded and counted once"
		}
		c.oblige(bad == "", "an answer is recorded and counted once", shortFn(ans), bad, "; ", p.exit(c))
	}
	c.oblige(n > 1 && vals[true] != nil && vals[false] != nil && vals[true] != vals[false] && !isNilV(vals[true]) && !isNilV(vals[false]), "reachable answer", shortFn(ans), "yes and no are not told apart")
	if answers != "" {
		c.refused("nobody answers twice", ans, args, opt, func(a *V) (bool, bool) { return absent(a, answers, true) })
	}
	// the start
	m := 0
	for _, p := range c.paths(start, args, opt) {
		if !p.Ok || p.O.panic {
			continue
		}
		m++
		bad := ""
		var cur *V
		var sched []*V
		for _, e := range p.Ev {
			switch {
			case e.Kind == "Set" && fullKey(e) == k.poll && e.Args[1].is("encode"):
				cur = e.Args[1].args[0]
			case e.Kind == "call" && e.Fn.Name() == "ScheduleTask":
				sched = e.Args
			case e.Kind == "Set" || e.Kind == "Delete":
				bad = "unexpected " + evStr([]Ev{e})
			}
		}
		if cur == nil || len(sched) < 4 {
			bad = "not stored and scheduled"
		} else {
			et := fieldVal(cur, pt, "EndTime")
			if sched[2] != et || et == nil || !mention(et, rawApp("blocktime")) || !hasFieldNamed(et, "PollPeriod") {
				bad = "the end is not the block time and the poll period, or not when its completion is scheduled"
			}
			for _, f := range []string{"Name", "Author", "Question", "Quorum", "Requirements"} {
				if fieldType(pt, f) != nil && fieldVal(cur, pt, f) != c.msgPath(start, msg, "Poll", f) {
					bad = f + " is changed"
				}
			}
		}
		c.oblige(bad == "", "a poll is stored and its completion scheduled", shortFn(start), bad, "; ", p.exit(c))
	}
	c.oblige(m > 0, "reachable start", shortFn(start), "")
	// the end
	c.pollEnd(end, k, yesKey, noKey, answers)
}

func unbytes(v *V) *V {
	for v.is("bytesof") && len(v.args) == 1 {
		v = v.args[0]
	}
	return v
}

func (c *Check) pollEnd(end *ssa.Function, k *votKeys, yesKey, noKey, answers string) {
	it := c.P.typ(votT, "PollHistoryItem")
	pt := c.P.typ(votT, "Poll")
	dec := c.P.enum(votT, "Decision")
	if it == nil || len(dec) < 2 {
		c.oblige(false, "anchor", "PollHistoryItem", "not found")
		return
	}
	n, judged := 0, 0
	for _, p := range c.paths(end, []*V{Sym("keeper"), Sym("ctx"), Sym("data"), Sym("time")}, pathOpts{inline: anyRepo, unroll: 1, iterOne: true, hyp: func(x *Exec, a *V, st *State) (bool, bool) {
		if v, ok := absent(a, k.poll, true); ok {
			return v, ok
		}
		return wellCoded(x, a, st)
	}}) {
		if p.O.panic {
			continue
		}
		n++
		bad := ""
		gone := map[string]bool{}
		ansGone, cached, flushed := false, false, false
		var item *V
		for _, e := range p.Ev {
			if e.Recv != nil && e.Recv.mentions(func(y *V) bool { return strings.HasSuffix(y.op, "cachekv.NewStore") }) && e.Kind != "Write" {
				cached, flushed = true, false
			}
			switch e.Kind {
			case "Write":
				flushed = true
			case "Delete":
				gone[fullKey(e)] = true
				if e.Args[0].mentions(func(y *V) bool { return y.hasOp("call:") && strings.HasSuffix(y.op, "Iterator.Key") }) {
					ansGone = true
				}
			case "Set":
				if e.Args[1].is("encode") && typeHas(e.Args[1].args[0], it) {
					item = e.Args[1].args[0]
				} else {
					bad = "writes " + evStr([]Ev{e})
				}
			}
		}
		if cached && !flushed {
			bad = "the changes are not written back"
		}
		if !gone[k.poll] || !gone[yesKey] || !gone[noKey] || !ansGone {
			bad = "the poll, its counters and answers are not all removed"
		}
		if item == nil {
			c.oblige(false, "the end of a poll leaves its result and nothing else", shortFn(end), "no result; ", p.exit(c))
			continue
		}
		y, no := fieldVal(item, it, "Yes"), fieldVal(item, it, "No")
		if !readOf(fieldVal(item, it, "Poll"), k.poll) {
			bad = "another poll is recorded"
		}
		num := func(v *V, key string) bool {
			if x, ok := intOf(v); ok && x == 0 {
				return p.unread(key)
			}
			return readOf(v, key) && len(linOf(v)) == 1
		}
		if !num(y, yesKey) || !num(no, noKey) {
			bad = "the numbers recorded are not the counters"
		}
		c.oblige(bad == "", "the end of a poll leaves its result and nothing else", shortFn(end), bad, "; ", p.exit(c))
		// the decision
		quorum := fieldVal(fieldVal(item, it, "Poll"), pt, "Quorum")
		d, isC := intOf(fieldVal(item, it, "Decision"))
		if !isC {
			continue
		}
		if none, ok := p.known(App("isnil", quorum)); ok && none {
			c.oblige(d == dec["DECISION_UNSPECIFIED"], "no decision without a quorum", shortFn(end), d, "; ", p.exit(c))
			continue
		}
		z, zk := p.known(App("eq", y, Int(0)))
		if x, ok := intOf(y); ok {
			z, zk = x == 0, true
		}
		holds, hk := false, false
		for a, v := range p.facts() {
			for _, cmp := range []struct {
				op        string
				swap, neg bool
			}{{"GTE", false, false}, {"LT", false, true}, {"LTE", true, false}, {"GT", true, true}} {
				if !a.hasOp("call:") || !strings.HasSuffix(a.op, "Fraction)."+cmp.op) || len(a.args) != 2 {
					continue
				}
				l, r := a.args[0], a.args[1]
				if cmp.swap {
					l, r = r, l
				}
				if !mention(a, quorum) {
					continue
				}
				if !mention(r, quorum) { // the quorum on the other side: the strictness differs
					c.oblige(false, "decided by the quorum", shortFn(end), "compares ", a.str(5), "; ", p.exit(c))
					continue
				}
				lv, rv := fracLin(l), lin(nil)
				if r.hasOp("call:") && strings.HasSuffix(r.op, "Fraction).Mul") && len(r.args) == 2 {
					for i := 0; i < 2; i++ {
						if r.args[i] == quorum || pureArg(r.args[i], quorum, "") {
							rv = fracLin(r.args[1-i])
						}
					}
				}
				if lv == nil || rv == nil {
					c.note("quorum comparison of an unknown form: %s", a.str(5))
					continue
				}
				hk, holds = true, v != cmp.neg
				c.oblige(lv.eq(linOf(y)) && rv.eq(linOf(y).plus(linOf(no), 1)), "decided by the quorum", shortFn(end), "compares ", lv, " with the quorum of ", rv, "; ", p.exit(c))
			}
		}
		switch {
		case zk && z:
			judged++
			c.oblige(d == dec["DECISION_NEGATIVE"], "nothing is decided positively without a yes", shortFn(end), d, "; ", p.exit(c))
		case hk:
			judged++
			c.oblige(d == dec["DECISION_POSITIVE"] == holds && (holds || d == dec["DECISION_NEGATIVE"]), "decided by the quorum", shortFn(end), "decision ", d, " when the quorum is reached: ", holds, "; ", p.exit(c))
		}
	}
	c.oblige(n > 0 && judged > 0, "reachable end", shortFn(end), n)
	_ = answers
}

// fracLin is the integer form in a fraction made of an integer.
func fracLin(v *V) lin {
	if v.hasOp("call:") && strings.HasSuffix(v.op, "util.FractionInt") && len(v.args) == 1 {
		return linOf(v.args[0])
	}
	return nil
}
