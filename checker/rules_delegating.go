package main

import (
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	delK = "x/delegating/keeper"
	delT = "x/delegating/types"
)

func init() {
	register("D01", ruleDelegatedCoins)
	register("D02", ruleRevocations)
	register("D03", ruleAccrualTasks)
	register("D04", ruleAccrualAmount)
}

// move is coins given to (or taken from) an account.
type move struct {
	i    int // index of the event
	acc  *V
	by   Lin // coin terms
	name string
}

// bankCalls selects the calls of bank operations that change something.
func (c *Check) bankCalls(ci *CallInfo) bool {
	return ci.Fn != nil && strings.HasPrefix(fnPkgPath(ci.Fn), modPath+"/"+bankK) && !c.P.readOnly(ci.Fn)
}

// moves lists the coin movements of a path; what is not understood is returned by name.
func (p *Path) moves() (ms []move, unknown string) {
	for i, e := range p.Ev {
		if e.Kind != "call" || e.Fn == nil || !strings.HasPrefix(fnPkgPath(e.Fn), modPath+"/"+bankK) {
			continue
		}
		a := e.Args
		switch e.Fn.Name() {
		case "AddCoins":
			ms = append(ms, move{i, a[2], coinLin(a[3]), "add"})
		case "SubtractCoins":
			ms = append(ms, move{i, a[2], Lin{}.add(coinLin(a[3]), -1), "sub"})
		case "SendCoins":
			ms = append(ms, move{i, a[2], Lin{}.add(coinLin(a[4]), -1), "send"}, move{i, a[3], coinLin(a[4]), "send"})
		case "PayTxFee":
			ms = append(ms, move{i, a[2], Lin{rawApp("fee", a[2], a[3]): -1}, "fee"})
		case "SetSupply", "GetSupply", "GetBalance", "BurnCoins", "MintCoins":
			if strings.HasPrefix(e.Fn.Name(), "Burn") || strings.HasPrefix(e.Fn.Name(), "Mint") {
				unknown = e.Fn.Name()
			}
		default:
			unknown = e.Fn.Name()
		}
	}
	return
}

// inDenom is the amount in one denomination.
func (l Lin) inDenom(d string) Lin {
	r := Lin{}
	for t, k := range l {
		if t.is("unitcoin") {
			if t.args[0] == Str(d) {
				r = r.add(Lin{t.args[1]: 1}, k)
			}
		}
	}
	return r
}

// denoms are the denominations of the coins; "?" when not known.
func (l Lin) denoms() map[string]bool {
	r := map[string]bool{}
	for t := range l {
		if t.is("unitcoin") {
			if s, ok := strOf(t.args[0]); ok {
				r[s] = true
				continue
			}
		}
		r["?"] = true
	}
	return r
}

func (c *Check) delegatingOps() (del, rev, pay, acr *ssa.Function) {
	return c.method(delK, "Keeper", "Delegate"), c.method(delK, "Keeper", "Revoke"), c.method(delK, "Keeper", "MustPerformRevoking"), c.method(delK, "Keeper", "MustPerformAccrue")
}

func (c *Check) delOpt(hyp func(a *V) (bool, bool)) pathOpts {
	own := samePkgOf(modPath + "/" + delK)
	return pathOpts{inline: func(f *ssa.Function) bool { return own(f) && !c.numeric(f) }, unroll: 2, watchI: func(ci *CallInfo) bool { return c.bankCalls(ci) || inPkg(schedK)(ci) },
		limit: 400, outLimit: 400,
		hyp: func(x *Exec, a *V, st *State) (bool, bool) {
			if hyp != nil {
				if v, ok := hyp(a); ok {
					return v, ok
				}
			}
			return wellCoded(x, a, st)
		}}
}

// numeric: the function only computes a fraction.
func (c *Check) numeric(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() == 1 && typeName(rs.At(0).Type()) == modShort("util.Fraction") && c.P.readOnly(f)
}

func modShort(s string) string { return s }

func samePkgOf(pk string) func(f *ssa.Function) bool {
	mod := moduleOf(pk)
	return func(f *ssa.Function) bool {
		p := fnPkgPath(f)
		return moduleOf(p) == mod || p == modPath+"/util" || p == modPath+"/x/bank/types"
	}
}

const (
	denMain, denDel, denRev = "uartr", "uartrd", "uartrr"
)

// isDelegated: the amount of delegated coins the account holds.
func isDelegated(t, acc *V) bool {
	return t.is("amountof") && t.args[1] == Str(denDel) && t.args[0].hasOp("call:") && strings.HasSuffix(t.args[0].op, ".GetBalance") && mention(t.args[0], acc)
}

// ruleDelegatedCoins: how delegated and revoking coins come and go.
func ruleDelegatedCoins(c *Check) {
	del, rev, pay, acr := c.delegatingOps()
	if del == nil || rev == nil || pay == nil || acr == nil {
		return
	}
	acc, amt := Sym("acc"), Sym("amount")
	base := []*V{Sym("keeper"), Sym("ctx")}
	// delegation: the amount less the fee turns from main to delegated coins
	dargs := append(append([]*V{}, base...), acc, amt)
	n := 0
	for _, p := range c.paths(del, dargs, c.delOpt(nil)) {
		if !p.Ok || p.O.panic {
			continue
		}
		n++
		ms, bad := p.moves()
		if bad != "" {
			bad = "calls " + bad
		}
		d, sub, fee := Lin{}, Lin{}, (*V)(nil)
		for _, m := range ms {
			ds := m.by.denoms()
			switch {
			case m.name == "fee":
				if fee != nil {
					bad = "pays the fee twice"
				}
				fee = p.Ev[m.i].Args[3]
				if m.acc != acc {
					bad = "fee paid by another account"
				}
			case ds[denDel] || ds[denRev] || ds["?"]:
				if m.acc != acc || len(ds) != 1 || !ds[denDel] {
					bad = "moves " + m.by.String()
				}
				d = d.add(m.by.inDenom(denDel), 1)
			case m.name == "sub":
				if m.acc != acc {
					bad = "takes coins of another account"
				}
				sub = sub.add(m.by.inDenom(denMain), -1)
			}
		}
		if b := p.otherwise(ms, acc); b != "" {
			bad = b
		}
		if fee == nil {
			bad = "no fee"
		} else if l := coinLin(fee).inDenom(denMain); !l.eq(numLin(amt)) || len(coinLin(fee)) != 1 {
			bad = "fee of another amount"
		}
		if bad == "" && !d.eq(sub) {
			bad = "delegates " + d.String() + " for " + sub.String()
		}
		if bad == "" {
			// amount - d is the fee
			r := numLin(amt).add(d, -1)
			if len(d) == 0 {
				z := false
				for f, v := range p.facts() {
					if v && f.is("eq") && mention(f, amt) && (isZeroV(f.args[0]) || isZeroV(f.args[1])) {
						z = true
					}
				}
				if !z {
					bad = "nothing is delegated"
				}
			} else {
				for t, k := range r {
					if k != 1 || !t.is("amountof") || t.args[1] != Str(denMain) || !t.args[0].hasOp("call:") || !strings.Contains(t.args[0].op, ".PayTxFee") {
						bad = "the amount and the delegation differ by " + r.String()
					}
				}
				if len(r) != 1 && bad == "" {
					bad = "the amount and the delegation differ by " + r.String()
				}
			}
		}
		c.oblige(bad == "", "delegating turns main coins into as many delegated coins", shortFn(del), bad, "; ", p.exit(c))
	}
	c.oblige(n > 0, "reachable delegation", shortFn(del), "")
	c.refused("no delegation below the minimum", del, dargs, c.delOpt(nil), func(a *V) (bool, bool) {
		return oneShort(a, true, func(t *V) bool { return t == amt }, func(t *V) bool { return hasFieldNamed(t, "MinDelegate") })
	})
	// revocation
	for _, ex := range []bool{false, true} {
		c.refused("nobody revokes more than delegated", rev, append(append([]*V{}, base...), acc, amt, Bool(ex)), c.delOpt(nil), func(a *V) (bool, bool) {
			if a.is("eq") && (a.args[0] == amt && isZeroV(a.args[1]) || a.args[1] == amt && isZeroV(a.args[0])) {
				return false, true
			}
			return oneShort(a, true, func(t *V) bool { return isDelegated(t, acc) }, func(t *V) bool { return t == amt })
		})
	}
	m := 0
	for _, ex := range []bool{false, true} {
		for _, p := range c.paths(rev, append(append([]*V{}, base...), acc, amt, Bool(ex)), c.delOpt(nil)) {
			if !p.Ok || p.O.panic {
				continue
			}
			ms, bad := p.moves()
			if bad != "" {
				bad = "calls " + bad
			}
			d, r := Lin{}, Lin{}
			for _, mv := range ms {
				ds := mv.by.denoms()
				if ds[denDel] || ds[denRev] || ds["?"] {
					if mv.acc != acc || ds["?"] {
						bad = "moves " + mv.by.String()
					}
					d = d.add(mv.by.inDenom(denDel), 1)
					r = r.add(mv.by.inDenom(denRev), 1)
				} else if mv.name == "sub" {
					bad = "takes " + mv.by.String()
				}
			}
			if b := p.otherwise(ms, acc); b != "" {
				bad = b
			}
			zero := p.isZero(amt)
			if zero {
				if len(ms) > 0 || p.has(writes("")) {
					bad = "changes something though nothing is revoked"
				}
			} else if bad == "" {
				m++
				if !d.eq(Lin{amt: -1}) {
					bad = "delegated coins change by " + d.String()
				}
				want := "Revoke"
				if ex {
					want = "ExpressRevoke"
				}
				if b := Lin(r).add(numLin(amt), -1); !burnt(b, want, amt) {
					bad = "revoking coins change by " + r.String()
				}
			}
			c.oblige(bad == "", "revoking turns delegated coins into revoking coins less what is burnt", shortFn(rev), bad, "; ", p.exit(c))
		}
	}
	c.oblige(m > 0, "reachable revocation", shortFn(rev), "")
	// payment of the revoked; accruals
	for _, f := range []*ssa.Function{pay, acr} {
		k := 0
		for _, p := range c.paths(f, append(append([]*V{}, base...), acc, Sym("time")), c.delOpt(nil)) {
			if p.O.panic {
				continue
			}
			ms, bad := p.moves()
			if bad != "" {
				bad = "calls " + bad
			}
			r, main := Lin{}, Lin{}
			for _, mv := range ms {
				ds := mv.by.denoms()
				if ds["?"] || ds[denDel] || ds[denRev] && (mv.acc != acc || f == acr) {
					bad = "moves " + mv.by.String()
				}
				if f == pay && mv.acc != acc {
					bad = "pays another account"
				}
				r = r.add(mv.by.inDenom(denRev), 1)
				main = main.add(mv.by.inDenom(denMain), 1)
			}
			if f == pay {
				if !r.add(main, 1).zero() {
					bad = "turns " + r.String() + " into " + main.String()
				}
				k += len(ms)
			} else if len(ms) > 0 {
				k++
			}
			c.oblige(bad == "", "only revocations touch delegated coins", shortFn(f), bad, "; ", p.exit(c))
		}
		c.oblige(k > 0, "reachable payment", shortFn(f), "")
	}
	// nobody else deals in these coins
	way := c.P.reachAvoiding(set(del, rev, pay, acr))
	uses := 0
	for f := range c.P.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cf := c.P.calleeOf(call.Common())
				if cf == nil || !(strings.HasSuffix(canonName(cf), "types.NewCoin") || strings.HasSuffix(canonName(cf), "types.NewInt64Coin")) {
					continue
				}
				k, ok := call.Common().Args[0].(*ssa.Const)
				if !ok || k.Value == nil {
					continue
				}
				if s := Const(k.Value); s == Str(denDel) || s == Str(denRev) {
					uses++
					_, reach := way[f]
					c.oblige(!reach, "delegated coins are made and unmade by delegating only", shortFn(f), "reached by ", wayTo(way, f))
				}
			}
		}
	}
	c.oblige(uses >= 3, "uses of the delegated denominations", "delegating", uses)
	// the banished keep nothing delegated
	ban := c.method(delK, "Keeper", "OnBanished")
	if ban == nil {
		return
	}
	o := c.delOpt(nil)
	o.watch = set(rev)
	o.fails = true
	k := 0
	for _, p := range c.paths(ban, []*V{Sym("keeper"), Sym("ctx"), acc}, o) {
		if !p.Ok || p.O.panic {
			continue
		}
		k++
		bad := "nothing is revoked"
		for _, e := range p.Ev {
			if e.Kind == "call" && e.Fn == rev {
				bad = ""
				if e.Args[2] != acc || !isDelegated(e.Args[3], acc) {
					bad = "revokes " + e.Args[3].str(4)
				}
			}
		}
		if bad != "" {
			for f, v := range p.facts() {
				if v && f.is("eq") && (isZeroV(f.args[0]) && isDelegated(f.args[1], acc) || isZeroV(f.args[1]) && isDelegated(f.args[0], acc)) {
					bad = ""
				}
			}
		}
		c.oblige(bad == "", "the whole delegation of a banished account is revoked", shortFn(ban), bad, "; ", p.exit(c))
	}
	c.oblige(k > 0, "reachable banishment", shortFn(ban), "")
}

// otherwise: main coins are given for the interest on the delegation only, and only if some is due.
func (p *Path) otherwise(ms []move, acc *V) string {
	for _, m := range ms {
		if m.name != "add" && m.name != "send" || len(m.by.inDenom(denMain)) == 0 {
			continue
		}
		for t := range m.by.inDenom(denMain) {
			if !t.mentions(func(y *V) bool { return isDelegated(y, acc) }) {
				return "gives " + m.by.String()
			}
		}
		if none, ok := p.nilField("delegating:"+itoa(acc.id), "NextAccrue"); !ok || none {
			return "gives interest though none is due"
		}
	}
	return ""
}

// burnt: minus a part of the amount, by the parameters named.
func burnt(b Lin, params string, amt *V) bool {
	if len(b) != 1 {
		return false
	}
	for t, k := range b {
		if k != -1 || !mention(t, amt) || !hasFieldNamed(t, "Burn") || !hasFieldNamed(t, params) {
			return false
		}
	}
	return true
}

func isZeroV(v *V) bool {
	n, ok := intOf(stripIface(v))
	return ok && n == 0
}

// isZero: the path knows the number to be zero.
func (p *Path) isZero(v *V) bool {
	r, ok := p.known(mkEq(v, Int(0)))
	return ok && r
}

// allFns lists the functions of the repository outside the application package.
func (P *Program) allFns() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for f := range P.graph().out {
		if f != nil && strings.HasPrefix(fnPkgPath(f), modPath) && !isAppPkg(f) {
			r[f] = true
		}
	}
	return r
}

// schedCalls are the calls of the schedule keeper: name and arguments after the context.
func schedCalls(es []Ev) (r []Ev) {
	for _, e := range es {
		if e.Kind == "call" && e.Fn != nil && strings.HasPrefix(fnPkgPath(e.Fn), modPath+"/"+schedK) {
			switch e.Fn.Name() {
			case "ScheduleTask", "Delete", "DeleteAll":
				r = append(r, e)
			}
		}
	}
	return
}

// ruleRevocations: every revocation is recorded and paid once, when it is due.
func ruleRevocations(c *Check) {
	_, rev, pay, _ := c.delegatingOps()
	rt, qt := c.P.typ(delT, "Record"), c.P.typ(delT, "RevokeRequest")
	hook, _ := c.P.constOf(delT, "RevokeHookName")
	if rev == nil || pay == nil || rt == nil || qt == nil || !c.oblige(hook != "", "anchor", "RevokeHookName", "") {
		return
	}
	acc, amt := Sym("acc"), Sym("amount")
	key := "delegating:" + itoa(acc.id)
	n := 0
	for _, ex := range []bool{false, true} {
		want := "Revoke"
		if ex {
			want = "ExpressRevoke"
		}
		for _, p := range c.paths(rev, []*V{Sym("keeper"), Sym("ctx"), acc, amt, Bool(ex)}, c.delOpt(nil)) {
			if !p.Ok || p.O.panic || p.isZero(amt) {
				continue
			}
			n++
			ms, bad := p.moves()
			r := Lin{}
			for _, m := range ms {
				r = r.add(m.by.inDenom(denRev), 1)
			}
			rec := (*V)(nil)
			for _, e := range p.Ev {
				if onKey(key, "Set")(e) && e.Args[1].is("encode") {
					rec = e.Args[1].args[0]
				} else if writes("")(e) {
					bad = "writes " + e.Store
				}
			}
			if rec == nil {
				bad = "the record is not kept"
			}
			var at *V
			k := 0
			for _, e := range schedCalls(p.Ev) {
				if len(e.Args) >= 5 && e.Args[3] == Str(hook) {
					if e.Fn.Name() != "ScheduleTask" || stripIface(e.Args[4]) != acc {
						bad = e.Fn.Name() + " of the payment"
					}
					k++
					at = e.Args[2]
				}
			}
			if k != 1 {
				bad = itoa(k) + " payments are scheduled"
			}
			if bad == "" {
				q := stripIface(fieldVal(rec, rt, "Requests"))
				var last *V
				if q.is("append") && len(q.args) == 2 {
					if l := stripIface(q.args[1]); l.k == KList && len(l.args) == 1 {
						last = l.args[0]
					} else if l.k != KList {
						last = l
					}
					if !oldField(q.args[0], key, "Requests") && !(emptyList(q.args[0]) || q.args[0].k == KZero || q.args[0].is("zero")) {
						bad = "earlier requests are lost"
					}
					if emptyList(q.args[0]) && !p.unread(key) {
						bad = "earlier requests are lost"
					}
				} else if q.k == KList && len(q.args) == 1 && p.unread(key) {
					last = q.args[0]
				}
				switch {
				case last == nil:
					bad = "the requests become " + q.str(4)
				case fieldVal(last, qt, "Time") != at:
					bad = "the payment is scheduled for another time"
				case !numLin(fieldVal(last, qt, "Amount")).eq(r):
					bad = "the request is of another amount than the revoking coins"
				case !at.mentions(func(y *V) bool { return y.is("blocktime") }) || !hasFieldNamed(at, want) && !at.mentions(func(y *V) bool { return strings.HasSuffix(y.op, "GetPeriod") && hasFieldNamed(y, want) }):
					bad = "the time of payment is not a period of the parameters after the block: " + at.str(5)
				}
			}
			c.oblige(bad == "", "a revocation is recorded and its payment scheduled", shortFn(rev), bad, "; ", p.exit(c))
		}
	}
	c.oblige(n > 0, "reachable revocation", shortFn(rev), "")
	sorts, payAll := true, false
	// payment: two requests on record, all due or not
	old := func(v *V) bool {
		return v.hasOp("field:") && strings.HasSuffix(v.op, ".Requests") && oldField(v, key, "Requests")
	}
	for _, due := range [][]bool{{false, false}, {true, false}, {true, true}, {false, true}} {
		o := c.delOpt(func(a *V) (bool, bool) {
			if v, ok := absent(a, key, true); ok {
				return v, ok
			}
			// two requests
			if v, ok := sized(a, func(t *V) (int64, bool) {
				if t.is("len") && old(t.args[0]) {
					return 2, true
				}
				if t.is("len") && t.args[0].is("slice") && old(t.args[0].args[0]) {
					if i, ok := intOf(t.args[0].args[1]); ok {
						return 2 - i, true
					}
					if t.args[0].args[1].k == KNil {
						return 2, true
					}
				}
				return 0, false
			}); ok {
				return v, ok
			}
			if a.is("isnil") && old(a.args[0]) {
				return false, true
			}
			// the times
			for i, d := range due {
				if v, ok := dueIs(a, old, i, d); ok {
					return v, ok
				}
			}
			return false, false
		})
		// the requests may be put in order first: the positions are those after that
		k := 0
		for _, p := range c.paths(pay, []*V{Sym("keeper"), Sym("ctx"), acc, Sym("time")}, o) {
			if p.O.panic {
				continue
			}
			k++
			ms, bad := p.moves()
			if !p.has(func(e Ev) bool {
				by := func(v *V, n string) bool {
					return v.hasOp("field:") && strings.HasSuffix(v.op, ".Time") && v.args[0].is("index") && old(v.args[0].args[0]) && v.args[0].args[1] == Sym(n)
				}
				return e.Kind == "sort" && old(stripIface(e.Args[0])) && e.Args[1].is("lt") && by(e.Args[1].args[0], "i") && by(e.Args[1].args[1], "j")
			}) {
				sorts = false
			}
			paid := map[int]int{}
			for _, m := range ms {
				if m.name != "add" {
					continue
				}
				for t, co := range m.by.inDenom(denMain) {
					i := -1
					if co == 1 && t.hasOp("field:") && strings.HasSuffix(t.op, ".Amount") && t.args[0].is("index") && old(t.args[0].args[0]) {
						if n, ok := intOf(t.args[0].args[1]); ok {
							i = int(n)
						}
					}
					if i < 0 {
						bad = "pays " + t.str(4)
					} else {
						paid[i]++
					}
				}
			}
			for f, v := range p.facts() { // nothing is paid for nothing
				for i := 0; v && f.is("eq") && i < 2; i++ {
					if t := f.args[i]; isZeroV(f.args[1-i]) && t.hasOp("field:") && strings.HasSuffix(t.op, ".Amount") && t.args[0].is("index") && old(t.args[0].args[0]) {
						if n, ok := intOf(t.args[0].args[1]); ok {
							paid[int(n)]++
						}
					}
				}
			}
			left, kept := map[int]bool{}, false
			for _, e := range p.Ev {
				if !writes("")(e) {
					continue
				}
				if fullKey(e) != key {
					bad = "writes " + e.Store
					continue
				}
				kept = true
				if e.Kind == "Set" {
					if !e.Args[1].is("encode") {
						bad = "stores something else"
						continue
					}
					ok := false
					left, ok = leftOf(fieldVal(e.Args[1].args[0], rt, "Requests"), old, 2)
					if !ok {
						bad = "the requests become " + fieldVal(e.Args[1].args[0], rt, "Requests").str(5)
					}
					if nx := fieldVal(e.Args[1].args[0], rt, "NextAccrue"); !oldField(nx, key, "NextAccrue") {
						bad = "the accrual is forgotten"
					}
				} else if v, ok := p.nilField(key, "NextAccrue"); !ok || !v {
					bad = "the accrual is forgotten"
				}
			}
			if !kept {
				left = map[int]bool{0: true, 1: true}
			}
			if !due[0] && due[1] && paid[1] == 1 {
				payAll = true
			}
			sorted := due[0] || !due[1] // in order of time, what is due comes first
			for i, d := range due {
				if !sorted {
					break
				}
				if d && paid[i] != 1 {
					bad = "a request due is paid " + itoa(paid[i]) + " times"
				}
				if !d && paid[i] != 0 {
					bad = "a request is paid before it is due"
				}
			}
			for i := range due {
				if left[i] == (paid[i] > 0) {
					bad = "a request is paid and kept, or lost"
				}
				if paid[i] > 1 || paid[i] > 0 && !due[i] {
					bad = "a request is paid too often or too early"
				}
			}
			c.oblige(bad == "", "requests are paid once when they are due", shortFn(pay), bad, "; ", p.exit(c))
		}
		c.oblige(k > 0, "reachable payment", shortFn(pay), due[0], due[1])
	}
	c.oblige(sorts || payAll, "requests are looked at in order of time", shortFn(pay), "neither sorted nor all looked at")
	c.storeWriters("delegation records change by delegating only", "delegating", 3, [][3]string{{delK, "Keeper", "Delegate"}, {delK, "Keeper", "Revoke"}, {delK, "Keeper", "MustPerformRevoking"}, {delK, "Keeper", "MustPerformAccrue"}})
}

// nilField: whether the path knows a field of the stored record to be nil.
func (p *Path) nilField(key, field string) (bool, bool) {
	for f, v := range p.facts() {
		if f.is("isnil") && oldField(f.args[0], key, field) {
			return v, true
		}
	}
	return false, false
}

// oldField: the field as stored under the key.
func oldField(v *V, key, field string) bool {
	if v == nil {
		return false
	}
	v = stripIface(v)
	return v.hasOp("field:") && strings.HasSuffix(v.op, "."+field) && v.args[0].is("decode") && readOf(v.args[0], key)
}

// sized evaluates comparisons of integers given the values of some terms.
func sized(a *V, val func(t *V) (int64, bool)) (bool, bool) {
	neg := false
	for a.is("not") {
		a, neg = a.args[0], !neg
	}
	if !a.is("lt") && !a.is("eq") {
		return false, false
	}
	l := linOf(a.args[0]).plus(linOf(a.args[1]), -1)
	k := int64(0)
	some := false
	for t, co := range l {
		if t == nil {
			k += co
			continue
		}
		n, ok := val(t)
		if !ok {
			return false, false
		}
		some = true
		k += co * n
	}
	if !some {
		return false, false
	}
	if a.is("eq") {
		return (k == 0) != neg, true
	}
	return (k < 0) != neg, true
}

// dueIs evaluates a comparison of the time of the i-th element with the time of the block.
func dueIs(a *V, list func(*V) bool, i int, due bool) (bool, bool) {
	neg := false
	for a.is("not") {
		a, neg = a.args[0], !neg
	}
	if !a.is("lt") {
		return false, false
	}
	tm := func(v *V) bool {
		if !v.hasOp("field:") || !strings.HasSuffix(v.op, ".Time") || !v.args[0].is("index") || !list(v.args[0].args[0]) {
			return false
		}
		n, ok := intOf(v.args[0].args[1])
		return ok && int(n) == i
	}
	bt := func(v *V) bool { return v.is("blocktime") }
	if bt(a.args[0]) && tm(a.args[1]) { // later
		return !due != neg, true
	}
	if tm(a.args[0]) && bt(a.args[1]) { // earlier, or due right now: not decided by being due
		if !due {
			return neg, true
		}
	}
	return false, false
}

// leftOf: which elements of the list the value has.
func leftOf(v *V, old func(*V) bool, n int) (map[int]bool, bool) {
	r := map[int]bool{}
	v = stripIface(v)
	switch {
	case emptyList(v):
		return r, true
	case old(v):
		for i := 0; i < n; i++ {
			r[i] = true
		}
		return r, true
	case v.is("index") && old(v.args[0]):
		i, ok := intOf(v.args[1])
		r[int(i)] = true
		return r, ok
	case v.is("slice") && old(v.args[0]):
		lo, hi := int64(0), int64(n)
		if v.args[1].k != KNil {
			x, ok := intOf(v.args[1])
			if !ok {
				return r, false
			}
			lo = x
		}
		if len(v.args) > 2 && v.args[2].k != KNil {
			x, ok := intOf(v.args[2])
			if !ok {
				return r, false
			}
			hi = x
		}
		for i := lo; i < hi; i++ {
			r[int(i)] = true
		}
		return r, true
	case v.k == KList, v.is("append"), v.is("spread"):
		for _, a := range v.args {
			m, ok := leftOf(a, old, n)
			if !ok {
				return r, false
			}
			for i := range m {
				if r[i] {
					return r, false
				}
				r[i] = true
			}
		}
		return r, true
	}
	return r, false
}

// ruleAccrualTasks: the time of the next accrual on record and the schedule agree.
func ruleAccrualTasks(c *Check) {
	del, rev, _, acr := c.delegatingOps()
	rt := c.P.typ(delT, "Record")
	hook, _ := c.P.constOf(delT, "AccrueHookName")
	if del == nil || rev == nil || acr == nil || rt == nil || !c.oblige(hook != "", "anchor", "AccrueHookName", "") {
		return
	}
	acc, amt, time := Sym("acc"), Sym("amount"), Sym("time")
	key := "delegating:" + itoa(acc.id)
	base := []*V{Sym("keeper"), Sym("ctx"), acc}
	get := c.method(bankK, "BaseViewKeeper", "GetBalance")
	nextOld := func(v *V) bool { return oldField(v, key, "NextAccrue") }
	for _, e := range []struct {
		f    *ssa.Function
		args []*V
	}{{del, append(append([]*V{}, base...), amt)}, {rev, append(append([]*V{}, base...), amt, Bool(false))}, {rev, append(append([]*V{}, base...), amt, Bool(true))}, {acr, append(append([]*V{}, base...), time)}} {
		o := c.delOpt(nil)
		o.observe = set(get)
		k := 0
		for _, p := range c.paths(e.f, e.args, o) {
			if !p.Ok || p.O.panic || (e.f == rev && p.isZero(amt)) {
				continue
			}
			rec := (*V)(nil)
			for _, ev := range p.Ev {
				if onKey(key, "Set")(ev) && ev.Args[1].is("encode") {
					rec = ev.Args[1].args[0]
				}
			}
			if !c.oblige(rec != nil, "the accrual is recorded", shortFn(e.f), "no record; ", p.exit(c)) {
				continue
			}
			k++
			next := stripIface(fieldVal(rec, rt, "NextAccrue"))
			bad := ""
			had, ok := p.nilField(key, "NextAccrue")
			had = ok && !had || e.f == acr
			var sched []*V
			gone := 0
			for _, ev := range schedCalls(p.Ev) {
				if len(ev.Args) < 4 || ev.Args[3] != Str(hook) {
					continue
				}
				if len(ev.Args) < 5 || stripIface(ev.Args[4]) != acc {
					bad = "the task of another account"
				}
				if ev.Fn.Name() == "ScheduleTask" {
					sched = append(sched, ev.Args[2])
				} else if t := stripIface(ev.Args[2]); nextOld(t) || t.is("deref") && nextOld(t.args[0]) || len(t.args) == 1 && nextOld(t.args[0]) {
					gone++
				} else {
					bad = "removes the task of another time: " + t.str(4)
				}
			}
			switch {
			case next.k == KNil || next.k == KZero:
				if len(sched) > 0 {
					bad = "an accrual is scheduled but not on record"
				}
				if d, why := p.notAbove(acc, e.f == rev, amt); !d {
					bad = "accruals stop though the delegation is not known to be dust" + why
				}
			case had && nextOld(next):
				if len(sched) > 0 || gone > 0 {
					bad = "the task and the record differ"
				}
			default:
				if len(sched) != 1 {
					bad = itoa(len(sched)) + " accruals are scheduled"
				} else if sched[0] != next {
					bad = "the accrual is on record for another time than scheduled"
				} else if !next.mentions(func(y *V) bool { return strings.HasSuffix(y.op, ".OneDay") }) {
					bad = "not in a day"
				}
			}
			if e.f != acr && had && gone != 1 {
				bad = "the earlier task is removed " + itoa(gone) + " times"
			}
			c.oblige(bad == "", "the next accrual on record is the one scheduled", shortFn(e.f), bad, "; ", p.exit(c))
		}
		c.oblige(k > 0, "reachable", shortFn(e.f), "")
	}
	// a task that is out of date accrues nothing
	c.refused("an accrual cancelled or rescheduled is not paid", acr, append(append([]*V{}, base...), time), c.delOpt(nil), func(a *V) (bool, bool) {
		if a.is("isnil") && nextOld(a.args[0]) {
			return true, true
		}
		return false, false
	})
	c.refused("an accrual is paid at its time only", acr, append(append([]*V{}, base...), time), c.delOpt(nil), func(a *V) (bool, bool) {
		if a.is("isnil") && nextOld(a.args[0]) {
			return false, true
		}
		if a.is("eq") && (mention(a.args[0], time) || mention(a.args[1], time)) && (oldNext(a.args[0], nextOld) || oldNext(a.args[1], nextOld)) {
			return false, true
		}
		return false, false
	})
}

func oldNext(v *V, nextOld func(*V) bool) bool { return v.mentions(nextOld) }

// notAbove: the path knows the delegation that remains not to exceed the dust limit, or that no interest is due.
func (p *Path) notAbove(acc *V, revoking bool, amt *V) (bool, string) {
	for f, v := range p.facts() {
		if f.is("lt") && !v && hasFieldNamed(f.args[0], "DustDelegation") {
			l := linOf(f.args[1])
			want := lin{}
			for t, co := range l {
				if t != nil && isDelegated(t, acc) {
					want[t] = 1
				} else if revoking && t == amt && co == -1 {
					want[t] = -1
				}
			}
			if len(want) == 0 || !l.eq(want) || revoking != (want[amt] == -1) {
				continue
			}
			return true, ""
		}
		if v && f.is("eq") && (f.args[0].hasOp("call:") || f.args[1].hasOp("call:")) && (isZeroV(f.args[0]) || isZeroV(f.args[1])) {
			if hasFieldNamed(f, "PercentList") {
				return true, ""
			}
		}
		if v && (f.hasOp("call:") && strings.HasSuffix(f.op, "IsZero")) {
			return true, ""
		}
	}
	return false, ""
}

// ruleAccrualAmount: interest is the sum of the base rate and of the bonus of each activity the account has, all of the
// range its delegation is in; it is paid to the account.
func ruleAccrualAmount(c *Check) {
	del, rev, _, acr := c.delegatingOps()
	if del == nil || rev == nil || acr == nil {
		return
	}
	acc, amt, time := Sym("acc"), Sym("amount"), Sym("time")
	key := "delegating:" + itoa(acc.id)
	base := []*V{Sym("keeper"), Sym("ctx"), acc}
	own := samePkgOf(modPath + "/" + delK)
	isCall := func(a *V, name string, i int) bool {
		return a.hasOp("call:") && (i < 0 && strings.HasSuffix(a.op, "."+name) || i >= 0 && strings.HasSuffix(a.op, "."+name+"#"+itoa(i))) && mention(a, acc)
	}
	table := func(v *V) bool {
		return v.hasOp("field:") && strings.HasSuffix(v.op, ".AccruePercentageTable")
	}
	for _, e := range []struct {
		f    *ssa.Function
		args []*V
	}{{acr, append(append([]*V{}, base...), time)}, {del, append(append([]*V{}, base...), amt)}, {rev, append(append([]*V{}, base...), amt, Bool(false))}} {
		for mm := 0; mm < 128; mm++ {
			m, missed, others := mm&31, mm&32 != 0, mm&64 != 0
			if mm > 31 && m != 5 && m != 31 {
				continue
			}
			high := m&16 != 0
			sharedSome := false
			// rate × delegation × the part of the day (day), or the rest of it until the time of payment, without what was missed
			fullShare := func(by Lin, rate poly, part, fee bool) bool {
				sum, owed := poly{}, []*V{}
				for t, k := range by {
					if !t.is("unitcoin") || t.args[0] != Str("uartr") {
						return false
					}
					if fv := t.args[1]; fee && k == -1 && strings.HasSuffix(fv.op, "util.CalculateFee") {
						owed = append(owed, fv)
						continue
					}
					sum = sum.add(unround(polyOf(t.args[1])), k)
				}
				canon := func(q poly) poly {
					r := poly{}
					for mk, cf := range q {
						t := poly{"": cf}
						for _, f := range factors(mk) {
							v := polyVars[f.id]
							switch {
							case isDelegated(v, acc):
								v = Sym("D")
							case v.is("index") && v.args[0].hasOp("field:") && strings.HasSuffix(v.args[0].op, ".PercentList"):
								v = rawApp("rate", v.args[1])
							case strings.HasSuffix(v.op, ".OneDay"):
								v = Sym("day")
							case oldField(v, key, "MissedPart") || v.k == KApp && len(v.args) == 1 && oldField(v.args[0], key, "MissedPart"):
								v = Sym("missed")
							case strings.HasSuffix(v.op, "(time.Time).Sub") && oldField(v.args[0], key, "NextAccrue") && v.args[1].is("blocktime"):
								v = Sym("rest")
							}
							p := polyVar(v)
							for e := f.exp; e > 0; e-- {
								t = t.mul(p)
							}
							for e := f.exp; e < 0; e++ {
								t = t.mul(p.inv())
							}
						}
						r = r.add(t, 1)
					}
					return r
				}
				of := polyInt(1)
				if part {
					of = of.add(polyVar(Sym("rest")).mul(polyVar(Sym("day")).inv()), -1)
				}
				if missed {
					of = of.add(polyVar(Sym("missed")), -1)
				}
				want := canon(rate).mul(polyVar(Sym("D"))).mul(of)
				ok := canon(sum).eq(want) && len(owed) <= 1
				for _, v := range owed {
					ok = ok && len(v.args) == 5 && canon(unround(polyOf(v.args[0]))).eq(want)
					for i, n := range []string{"TransactionFee", "MaxTransactionFee", "ForProposer", "ForCompany"} {
						ok = ok && strings.HasSuffix(v.args[i+1].op, "."+n)
					}
				}
				return ok
			}
			o := pathOpts{inline: own, unroll: 6, watchI: func(ci *CallInfo) bool { return c.bankCalls(ci) || inPkg(schedK)(ci) }, limit: 200, outLimit: 40,
				hyp: func(x *Exec, a *V, st *State) (bool, bool) {
					b, neg := a, false
					for b.is("not") {
						b, neg = b.args[0], !neg
					}
					switch {
					case isCall(b, "IsActiveValidator", 0):
						return (m&1 != 0) != neg, true
					case isCall(b, "IsActive", -1) && strings.Contains(b.op, "profile"):
						return (m&2 != 0) != neg, true
					case isCall(b, "IsActiveEarner", 0):
						return (m&4 != 0) != neg, true
					case isCall(b, "IsActiveEarner", 1):
						return (m&8 != 0) != neg, true
					case b.is("isnil") && (isCall(b.args[0], "IsActiveValidator", 1) || isCall(b.args[0], "IsActiveEarner", 2)):
						return !neg, true
					case b.is("isnil") && isCall(b.args[0], "GetProfile", -1):
						return neg, true
					case b.is("isnil") && oldField(b.args[0], key, "NextAccrue"):
						return neg, true
					case b.is("isnil") && oldField(b.args[0], key, "MissedPart"):
						return missed == neg, true
					}
					if v, ok := absent(a, key, true); ok {
						return v, ok
					}
					if b.is("eq") && (b.args[0] == time || b.args[1] == time) {
						return !neg, true
					}
					if b.is("eq") && (b.args[0] == amt && isZeroV(b.args[1]) || b.args[1] == amt && isZeroV(b.args[0])) {
						return neg, true
					}
					// two ranges; the delegation is in the first or in the second
					if v, ok := sized(a, func(t *V) (int64, bool) {
						switch {
						case t.is("len") && table(t.args[0]):
							return 2, true
						case t.is("len") && others && t.args[0].hasOp("call:") && strings.Contains(t.args[0].op, ".GetReferralValidatorFeesForDelegating"):
							return 1, true
						case t.is("len"):
							return 0, true // nobody else is paid
						case t.hasOp("field:") && strings.HasSuffix(t.op, ".Start") && t.args[0].is("index") && table(t.args[0].args[0]):
							if n, ok := intOf(t.args[0].args[1]); ok {
								return 100 * n, true
							}
						case isDelegated(t, acc):
							if high {
								return 100, true
							}
							return 99, true
						case t.hasOp("field:") && strings.HasSuffix(t.op, ".DustDelegation"):
							return 10, true
						case t == amt:
							return 50, true
						}
						return 0, false
					}); ok {
						return v, ok
					}
					if b.is("isnil") && table(b.args[0]) {
						return neg, true
					}
					// the rates are such that something is due
					if b.hasOp("call:") && strings.HasSuffix(b.op, "Fraction).IsZero") {
						return neg, true
					}
					if (b.is("eq") || b.is("lt")) && hasFieldNamed(b, "PercentList") {
						for i := 0; i < 2; i++ {
							if isZeroV(b.args[i]) {
								return (b.is("lt") && i == 0) != neg, true
							}
						}
					}
					return wellCoded(x, a, st)
				}}
			want := map[int64]bool{0: true}
			for i := int64(0); i < 4; i++ {
				if m&(1<<uint(i)) != 0 {
					want[i+1] = true
				}
			}
			n := 0
			for _, p := range c.paths(e.f, e.args, o) {
				if !p.Ok || p.O.panic {
					continue
				}
				n++
				ms, bad := p.moves()
				paid, shared := false, false
				for _, mv := range ms {
					got := map[int64]bool{}
					for t := range mv.by {
						t.mentions(func(y *V) bool {
							if y.is("index") && y.args[0].hasOp("field:") && strings.HasSuffix(y.args[0].op, ".PercentList") {
								k, ok := intOf(y.args[1])
								r := int64(-1)
								if z := y.args[0].args[0]; z.is("index") && table(z.args[0]) {
									r, _ = intOf(z.args[1])
								}
								if !ok || (r == 1) != high || r < 0 {
									bad = "interest of another range of the table"
								}
								got[k] = true
							}
							return false
						})
					}
					var ratio *V
					if len(got) == 0 && mv.by.denoms()["?"] == false {
						for t := range mv.by {
							t.mentions(func(y *V) bool {
								if y.hasOp("field:") && strings.HasSuffix(y.op, "ReferralValidatorFee.Ratio") {
									ratio = y
								}
								return false
							})
						}
					}
					if len(got) == 0 && ratio != nil {
						shared = true
						if !others || !fullShare(mv.by, poly{"": big.NewRat(1, 30)}.mul(polyVar(ratio)), e.f != acr, false) {
							bad = "the share of a validator's beneficiary is another one"
						}
						if !mention(mv.acc, ratio.args[0]) {
							bad = "the share is paid to another account"
						}
					}
					if len(got) == 0 || mv.acc != acc {
						continue
					}
					rates := poly{}
					for k := range got {
						t := rawApp("rate", Int(k))
						rates = rates.add(polyVar(t), 1)
					}
					if !fullShare(mv.by, rates.mul(poly{"": big.NewRat(1, 30)}), e.f != acr, true) {
						bad = "the amount is not the rate of the time passed"
					}
					if paid {
						bad = "interest is paid twice"
					}
					paid = true
					for k := int64(0); k < 5; k++ {
						if got[k] != want[k] {
							bad = "the bonus " + itoa(int(k)) + " is wrong"
						}
					}
					for t := range mv.by {
						if !t.mentions(func(y *V) bool { return isDelegated(y, acc) }) {
							bad = "not of the delegation"
						}
					}
				}
				if !paid && bad == "" {
					bad = "no interest is paid"
				}
				if others {
					sharedSome = sharedSome || shared
				}
				c.oblige(bad == "", "interest is due for each activity of the account", shortFn(e.f), bad, "; activities ", m, "; ", p.exit(c))
			}
			c.oblige(n > 0, "reachable interest", shortFn(e.f), "activities ", m)
			c.oblige(!others || sharedSome, "shares of validators", shortFn(e.f), "nobody above gets a share")
		}
	}
	// interest for the time until now is of the delegation until now
	for _, e := range []struct {
		f    *ssa.Function
		args []*V
	}{{del, append(append([]*V{}, base...), amt)}, {rev, append(append([]*V{}, base...), amt, Bool(false))}, {rev, append(append([]*V{}, base...), amt, Bool(true))}} {
		o := c.delOpt(func(a *V) (bool, bool) {
			if a.is("isnil") && oldField(a.args[0], key, "NextAccrue") {
				return false, true
			}
			if v, ok := absent(a, key, true); ok {
				return v, ok
			}
			return false, false
		})
		get := c.method(bankK, "BaseViewKeeper", "GetBalance")
		o.observe = set(get)
		n := 0
		for _, p := range c.paths(e.f, e.args, o) {
			if !p.Ok || p.O.panic {
				continue
			}
			bad := ""
			ms, _ := p.moves()
			changed := len(p.Ev)
			for _, m := range ms {
				if m.acc == acc && len(m.by.inDenom(denDel)) > 0 && m.i < changed {
					changed = m.i
				}
			}
			for _, m := range ms {
				ofOld := false
				for t := range m.by {
					if t.is("unitcoin") && t.args[1] != amt && t.args[1].mentions(func(y *V) bool { return isDelegated(y, acc) }) {
						ofOld = true
					}
				}
				if ofOld {
					n++
					if m.i > changed {
						bad = "interest is paid after the delegation changed"
					}
				}
			}
			c.oblige(bad == "", "interest until now is of the delegation until now", shortFn(e.f), bad, "; ", p.exit(c))
		}
		c.oblige(n > 0, "reachable interest", shortFn(e.f), "before the change")
	}
}
