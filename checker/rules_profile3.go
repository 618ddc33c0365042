package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("P03", ruleTariff)
	register("P04", ruleImExtra)
}

// payments are the bank operations that last and did not fail.
func (p *Path) payments() (r []Ev) {
	for _, e := range p.effects() {
		if strings.HasPrefix(fnPkgPath(e.Fn), modPath+"/"+bankK) && !p.failed(")."+e.Fn.Name()) {
			r = append(r, e)
		}
	}
	return
}

// parts of an input or output of a payment.
func ioParts(v *V) (acc *V, coins *V) {
	v = stripIface(v)
	if v.k == KStruct {
		for i := 1; i+1 < len(v.args); i += 2 {
			switch fieldName(v.args[i]) {
			case "Address":
				acc = stripIface(v.args[i+1])
			case "Coins":
				coins = v.args[i+1]
			}
		}
		return
	}
	if v.hasOp("call:") && len(v.args) == 2 {
		return stripIface(v.args[0]), v.args[1]
	}
	return
}

type due struct {
	total poly
	limit poly // storage afterwards
}

// ruleTariff: a subscription.
func ruleTariff(c *Check) {
	m := c.proMachine()
	pay, renew := c.method(proK, "Keeper", "PayTariff"), c.method(proK, "Keeper", "HandleRenewHook")
	if m == nil || pay == nil || renew == nil {
		return
	}
	hook := c.hookName(schedK, proK, "Keeper", "HandleRenewHook")
	refInfo := c.P.typeOf("x/referral/types", "Info")
	if !c.oblige(refInfo != nil, "anchor", "referral Info", "") {
		return
	}
	rate, gbp, base := m.param("TokenRate"), m.param("StorageGbPrice"), m.param("BaseStorageGb").mul(polyInt(gbSize))
	baseV := m.param("BaseVpnGb").mul(polyInt(gbSize))
	month, bt := polyVar(Sym("month")), rawApp("blocktime")
	bad := map[string]string{}
	note := func(k, what string, why ...interface{}) {
		if bad[k] == "" {
			bad[k] = what + ": " + fmt.Sprint(why...)
		}
	}
	const (
		kPrice = "the price of a month and of the storage is paid, for the fee and to the company"
		kTime  = "a paid subscription lasts a month longer"
		kStore = "the storage paid for is granted, not less than the base and what is in use"
		kVpn   = "the limit of traffic is renewed with a new period only"
		kTask  = "the end of every paid period is scheduled"
		kRest  = "nothing else of the profile changes"
		kBack  = "a banished account is back after it has paid"
		kAuto  = "automatic payment: paid, or inactive and nothing charged"
		kOff   = "without automatic payment the subscription ends"
		kReset = "a period paid in advance begins with new limits, at no charge"
	)
	fld := func(rec *V, n string) poly { return polyOf(m.field(rec, n)) }
	gb := polyVar(Sym("arg2"))
	auto := Sym("auto")
	// paid checks a path on which the tariff is paid
	paid := func(what string, p *Path, n proCase, rec *V, byHook bool, gbKnown *V) {
		var io Ev
		ps := p.payments()
		if len(ps) != 1 || ps[0].Fn.Name() != "InputOutputCoins" {
			note(kPrice, what, len(ps), " payments")
			return
		}
		io = ps[0]
		ins, outs := stripIface(io.Args[2]), stripIface(io.Args[3])
		if ins.k != KList || outs.k != KList || len(ins.args) != 1 {
			note(kPrice, what, "inputs ", ins.str(4), " outputs ", outs.str(4))
			return
		}
		payer, coins := ioParts(ins.args[0])
		if payer != proAcc || coins == nil {
			note(kPrice, what, "paid by ", ins.args[0].str(5))
			return
		}
		total := coinPoly(coins, "uartr")
		// storage
		lim, cur := fld(rec, "StorageLimit"), fld(rec, "StorageCurrent")
		var s poly
		lo, hi := 0, 0
		if gbKnown == nil {
			lo, hi = p.sign(gb)
		}
		switch {
		case lo == 0 && hi == 0:
			if l, h := p.sign(lim); l == 0 && h == 0 {
				s = base
			} else {
				s = lim
			}
		default:
			s = gb.mul(polyInt(gbSize))
			if l, _ := p.sign(s.add(cur, -1)); l < 0 {
				note(kStore, what, "may be below what is in use")
			}
			l1, _ := p.sign(gb.add(m.param("BaseStorageGb"), -1))
			l2, _ := p.sign(s.add(base, -1))
			if l1 < 0 && l2 < 0 {
				note(kStore, what, "may be below the base")
			}
		}
		if l, h := p.sign(s); l == 0 && h == 0 && !s.eq(poly{}) {
			return // no storage at all: the guards above exclude it
		}
		frac := rate.mul(s.add(base, -1)).mul(gbp).mul(polyInt(gbSize).inv())
		if n.until == 2 {
			if l, h := p.sign(s.add(lim, -1)); !(l == 0 && h == 0) {
				more := rate.mul(s.add(lim, -1)).mul(polyInt(gbSize).inv()).mul(gbp).mul(timeDiff(m.until, bt)).mul(month.inv())
				full := frac.add(more, 1)
				l, h := p.sign(full)
				switch {
				case s.eq(lim):
				case h < 0 || l <= 0 && h <= 0 && !s.eq(lim):
					frac = poly{}
				case l >= 0:
					frac = full
				default:
					note(kPrice, what, "the price of the storage may be negative")
					return
				}
			}
		}
		sub := rate.mul(m.param("SubscriptionPrice")).trunc()
		want := sub.add(frac.trunc(), 1)
		if total == nil || !total.eq(want) {
			note(kPrice, what, "charges ", total, " instead of ", want)
		}
		var company, fee poly
		var feeTerm *V
		for _, o := range outs.args {
			to, cs := ioParts(o)
			a := coinPoly(cs, "uartr")
			switch {
			case cs == nil || a == nil:
				note(kPrice, what, "output ", o.str(5))
			case m.company(to) && company == nil:
				company = a
			case to.is("moduleaddr") && to.args[0] == Str("splittable_fee_collector") && fee == nil:
				fee = a
				for k := range a {
					if fs := factors(k); len(fs) == 1 {
						feeTerm = polyVars[fs[0].id]
					}
				}
			default:
				note(kPrice, what, "paid to ", to.str(5))
			}
		}
		if company == nil {
			note(kPrice, what, "nothing for the company")
			return
		}
		if feeTerm == nil {
			for k := range company.add(want, -1) {
				if fs := factors(k); len(fs) == 1 {
					feeTerm = polyVars[fs[0].id]
				}
			}
		}
		if feeTerm == nil || !strings.Contains(feeTerm.op, "util.CalculateFee") || !polyOf(feeTerm.args[0]).eq(sub) {
			note(kPrice, what, "the fee is ", fee)
			return
		}
		if !company.eq(want.add(polyVar(feeTerm), -1)) {
			note(kPrice, what, "the company gets ", company)
		}
		if fee == nil {
			if l, h := p.sign(polyVar(feeTerm)); l != 0 || h != 0 {
				note(kPrice, what, "the fee is not paid")
			}
		} else if !fee.eq(polyVar(feeTerm)) {
			note(kPrice, what, "the fee is ", fee)
		}
		// the record
		nv := m.rec(p.O.st, proAcc)
		if nv == nil {
			note(kTime, what, "not saved")
			return
		}
		is := taskTime(m.field(nv, "ActiveUntil"))
		fromNow := n.until != 2 && !byHook
		if fromNow && months(is) != 1 || !fromNow && !laterBy(is, m.until, 1) {
			note(kTime, what, "until ", is.str(5))
		}
		if ts, why := p.tasks(hook, proAcc); why != "" || len(ts) != 1 || ts[0] != is {
			note(kTask, what, why, List(ts...).str(5))
		}
		if g := fld(nv, "StorageLimit"); !g.eq(s) {
			if l, h := p.sign(g.add(s, -1)); l != 0 || h != 0 {
				note(kStore, what, "the limit becomes ", g, " and ", s, " is paid for")
			}
		}
		m.vpn(p, rec, nv, baseV, fromNow || byHook, func(why string) { note(kVpn, what, why) })
		m.others(p, rec, nv, "ActiveUntil StorageLimit VpnLimit VpnCurrent", func(why string) { note(kRest, what, why) })
	}
	runs := 0
	for until := 0; until < 3; until++ {
		for _, byHook := range []bool{false, true} {
			if byHook && until != 1 {
				continue
			}
			n := proCase{nick: "Old", until: until, im: 2}
			rec := m.load(n)
			m.over = map[int]*V{}
			for i := 0; i < pay.Signature.Params().Len(); i++ {
				if isBasic(types.Bool)(pay.Signature.Params().At(i).Type()) {
					m.over[i] = Bool(byHook)
				}
			}
			for _, p := range m.run(pay, n, rec) {
				if p.O.panic || !p.ok() {
					continue
				}
				runs++
				what := fmt.Sprint("PayTariff (", n, ", automatic: ", byHook, ") ", p.exit(c))
				paid(what, p, n, rec, byHook, nil)
				back, banished := 0, false
				for _, e := range p.effects() {
					if e.Fn.Name() == "ComeBack" && m.sameAcc(e.Args[2]) {
						back++
					}
				}
				for a, v := range p.facts() {
					if v && a.mentions(func(y *V) bool { return strings.Contains(y.op, ").Get#0") }) && strings.Contains(a.str(8), ".Banished") {
						banished = true
					}
				}
				if back > 1 || back == 1 != banished {
					note(kBack, what, "banished: ", banished, ", brought back ", back, " times")
				}
			}
			m.over = nil
		}
	}
	c.oblige(runs >= 8, "the operation was followed", "PayTariff", "", runs)
	// the hook
	hooks := map[string]int{}
	for _, until := range []int{1, 2} {
		n := proCase{nick: "Old", until: until, im: 2}
		rec := m.load(n)
		for _, p := range m.run(renew, n, rec) {
			if p.O.panic || !p.ok() {
				continue
			}
			what := fmt.Sprint("renewal (", n, ") ", p.exit(c))
			nv := m.rec(p.O.st, proAcc)
			off, on := 0, 0
			for _, e := range p.effects() {
				if e.Fn.Name() == "MustSetActive" || e.Fn.Name() == "SetActive" {
					v, kn := p.known(e.Args[3])
					if !kn {
						note(kOff, what, "active: ", e.Args[3].str(4))
					}
					if !m.sameAcc(e.Args[2]) {
						note(kOff, what, "of ", e.Args[2].str(4))
					}
					if v {
						on++
					} else {
						off++
					}
				}
			}
			if until == 2 {
				hooks["advance"]++
				if len(p.payments()) > 0 || off > 0 || len(schedCalls(p.effects())) > 0 {
					note(kReset, what, "charged, switched off or scheduled")
				}
				m.vpn(p, rec, nv, baseV, true, func(why string) { note(kReset, what, why) })
				m.others(p, rec, nv, "StorageLimit VpnLimit VpnCurrent", func(why string) { note(kReset, what, why) })
				continue
			}
			wants, kn := p.known(m.field(rec, "AutoPay"))
			switch {
			case !kn:
				note(kAuto, what, "regardless of what the user wants")
			case !wants:
				hooks["off"]++
				if off != 1 || on > 0 || len(p.payments()) > 0 || nv != rec {
					note(kOff, what, "switched off ", off, " times, ", len(p.payments()), " payments")
				}
			case p.failed(").InputOutputCoins") || len(p.payments()) == 0:
				hooks["failed"]++
				if off != 1 || on > 0 || len(p.payments()) > 0 || nv != rec {
					note(kAuto, what, "switched off ", off, " times after a failed payment, ", len(p.payments()), " payments")
				}
			case off > 0 && len(p.payments()) > 0:
				// SetProfile does not fail for what has been saved
				if !p.failed("SetProfile") && !p.failed("GetParams") {
					note(kAuto, what, "switched off after it has paid")
				}
			default:
				hooks["paid"]++
				paid(what, p, n, rec, true, Int(0))
			}
		}
	}
	for _, h := range []string{"advance", "off", "failed", "paid"} {
		c.oblige(hooks[h] > 0, "the renewal was followed", h, "", hooks[h])
	}
	for _, k := range []string{kPrice, kTime, kStore, kVpn, kTask, kRest, kBack, kAuto, kOff, kReset} {
		c.oblige(bad[k] == "", k, "PayTariff and the renewal", bad[k], runs)
	}
	_ = auto
}

func (m *proMachine) sameAcc(v *V) bool { return stripIface(v) == proAcc }

// others: no fields but those named have changed.
func (m *proMachine) others(p *Path, rec, nv *V, but string, note func(why string)) {
	if nv == nil {
		note("the profile is gone")
		return
	}
	s := m.typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		fn := s.Field(i).Name()
		if was, is := m.field(rec, fn), taskTime(m.field(nv, fn)); is != was && !hasWord(but, fn) {
			note(fn + " becomes " + is.str(5))
		}
	}
}

// vpn: what the limit of traffic becomes.
func (m *proMachine) vpn(p *Path, rec, nv *V, baseV poly, renewed bool, note func(why string)) {
	if nv == nil {
		note("the profile is gone")
		return
	}
	lim, cur := polyOf(m.field(rec, "VpnLimit")), polyOf(m.field(rec, "VpnCurrent"))
	l2, c2 := polyOf(m.field(nv, "VpnLimit")), polyOf(m.field(nv, "VpnCurrent"))
	if !renewed {
		if !lim.eq(l2) || !cur.eq(c2) {
			note("the traffic becomes " + c2.String() + " of " + l2.String())
		}
		return
	}
	if !c2.eq(poly{}) {
		note("the traffic used becomes " + c2.String())
	}
	// what is above the base is used up after the base
	var left []poly
	lo, hi := p.sign(cur.add(baseV, -1))
	if hi <= 0 {
		left = append(left, lim)
	}
	if lo >= 0 {
		left = append(left, lim.add(cur.add(baseV, -1), -1))
	}
	for _, l := range left {
		lo, hi := p.sign(l.add(baseV, -1))
		if l2.eq(l) && lo >= 0 || l2.eq(baseV) && hi <= 0 {
			return
		}
	}
	note("the limit of traffic becomes " + l2.String())
}

// ruleImExtra: extra storage for messages and the task which ends it.
func ruleImExtra(c *Check) {
	m := c.proMachine()
	renew := c.method(proK, "Keeper", "HandleRenewImHook")
	if m == nil || renew == nil {
		return
	}
	hook := c.hookName(schedK, proK, "Keeper", "HandleRenewImHook")
	tariff := c.hookName(schedK, proK, "Keeper", "HandleRenewHook")
	const (
		kTask = "extra storage ends when its task is due"
		kAuto = "automatic prolongation: paid for a month more, or ended with nothing charged"
		kOff  = "without automatic prolongation it ends"
		kSub  = "only a paid subscription schedules its end"
	)
	bad := map[string]string{}
	note := func(k, what string, why ...interface{}) {
		if bad[k] == "" {
			bad[k] = what + ": " + fmt.Sprint(why...)
		}
	}
	// after: the task there is belongs to the time on record
	after := func(what string, p *Path, nv *V, before ...*V) {
		if nv == nil {
			return
		}
		ts, why := p.tasks(hook, proAcc, before...)
		want := []*V{}
		if u := taskTime(m.field(nv, "ExtraImUntil")); u != vNil && !isZeroV(m.field(nv, "ImLimitExtra")) {
			want = append(want, u)
		} else if u != vNil {
			if l, h := p.sign(polyOf(m.field(nv, "ImLimitExtra"))); !(l == 0 && h == 0) {
				want = append(want, u)
			}
		}
		if why != "" || len(ts) != len(want) || len(ts) == 1 && ts[0] != want[0] {
			note(kTask, what, why, "tasks at ", List(ts...).str(4), ", on record ", List(want...).str(4))
		}
	}
	runs := 0
	for _, f := range m.funcs() {
		if f == renew || f.Name() == "ImportProfileRecords" || f.Name() == "CreateAccount" || f.Name() == "CreateAccountWithProfile" || typeName(deref(f.Signature.Recv().Type())) != proK+".Keeper" {
			continue
		}
		for _, im := range []int{0, 2} {
			for until := 0; until < 3; until++ {
				n := proCase{nick: "Old", want: "Old", until: until, im: im}
				rec := m.load(n)
				before := []*V{}
				if im == 2 {
					before = append(before, m.imUntil)
				}
				for _, p := range m.run(f, n, rec) {
					if p.O.panic || !p.ok() {
						continue
					}
					runs++
					what := fmt.Sprint(f.Name(), " (", n, ") ", p.exit(c))
					after(what, p, m.rec(p.O.st, proAcc), before...)
					if f.Name() != "PayTariff" && f.Name() != "HandleRenewHook" {
						if ts, why := p.tasks(tariff, proAcc); why != "" || len(ts) > 0 {
							note(kSub, what, why, List(ts...).str(4))
						}
					}
				}
			}
		}
	}
	c.oblige(runs >= 60, "the operations were followed", "operations on profiles", "", runs)
	hooks := map[string]int{}
	n := proCase{nick: "Old", want: "Old", until: 2, im: 1}
	rec := m.load(n)
	price := m.param("TokenRate").mul(polyOf(m.field(rec, "ImLimitExtra"))).mul(m.param("StorageGbPrice")).trunc()
	for _, p := range m.run(renew, n, rec) {
		if p.O.panic || !p.ok() {
			continue
		}
		what := fmt.Sprint("the end of extra storage (", n, ") ", p.exit(c))
		nv := m.rec(p.O.st, proAcc)
		after(what, p, nv)
		ended := nv != nil && m.field(nv, "ExtraImUntil") == vNil && isZeroV(m.field(nv, "ImLimitExtra"))
		wants, kn := p.known(m.field(rec, "AutoPayImExtra"))
		pays := p.payments()
		attempted := p.has(func(e Ev) bool {
			return e.Kind == "call" && e.Fn != nil && strings.HasPrefix(fnPkgPath(e.Fn), modPath+"/"+bankK)
		})
		failed := p.failed(").PayTxFee") || p.failed(").SendCoins") || p.failed(").InputOutputCoins")
		switch {
		case !kn:
			note(kAuto, what, "regardless of what the user wants")
		case !wants:
			hooks["off"]++
			if attempted || !ended {
				note(kOff, what, "ended: ", ended, ", ", len(pays), " payments")
			}
		case failed || !attempted:
			hooks["failed"]++
			if len(pays) > 0 || !ended {
				note(kAuto, what, "after a failed payment ended: ", ended, ", ", len(pays), " payments stay")
			}
		default:
			hooks["paid"]++
			amt, why := m.charge(&Path{O: p.O, X: p.X, Ok: p.Ok, Ev: p.effects()})
			if why != "" || amt == nil || !amt.eq(price) {
				note(kAuto, what, why, " charges ", amt, " instead of ", price)
			}
			if nv == nil || !laterBy(taskTime(m.field(nv, "ExtraImUntil")), m.imUntil, 1) || m.field(nv, "ImLimitExtra") != m.field(rec, "ImLimitExtra") {
				note(kAuto, what, "paid and not prolonged")
			}
		}
		m.others(p, rec, nv, "ExtraImUntil ImLimitExtra AutoPayImExtra", func(why string) { note(kAuto, what, why) })
	}
	for _, h := range []string{"off", "failed", "paid"} {
		c.oblige(hooks[h] > 0, "the end was followed", h, "", hooks[h])
	}
	for _, k := range []string{kTask, kAuto, kOff, kSub} {
		c.oblige(bad[k] == "", k, "operations on profiles", bad[k], runs)
	}
}
