package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("P05", ruleProfileRights)
	register("P06", ruleActivity)
}

// with hypotheses besides those of the case.
func (m *proMachine) also(h func(a *V) (bool, bool)) {
	was := m.hyp
	m.hyp = func(x *Exec, a *V, st *State) (bool, bool) {
		if v, ok := h(a); ok {
			return v, ok
		}
		if was != nil {
			return was(x, a, st)
		}
		return false, false
	}
}

// identity: symbols are equal if they are the same.
func identity(ss ...*V) func(a *V) (bool, bool) {
	is := map[*V]bool{}
	for _, s := range ss {
		is[s] = true
	}
	return func(a *V) (bool, bool) {
		if a.is("eq") && len(a.args) == 2 {
			l, r := stripIface(a.args[0]), stripIface(a.args[1])
			if is[l] && is[r] {
				return l == r, true
			}
		}
		return false, false
	}
}

// params are the parameters with some of them given.
func (m *proMachine) params(kv ...interface{}) *V {
	pt := m.c.P.typeOf(proT, "Params")
	v := Sym("params")
	s := pt.Underlying().(*types.Struct)
	for i := 0; i < len(kv); i += 2 {
		ok := false
		for j := 0; j < s.NumFields(); j++ {
			if s.Field(j).Name() == kv[i].(string) {
				v = update(v, FieldSel(pt, j), kv[i+1].(*V))
				ok = true
			}
		}
		if !ok {
			m.c.oblige(false, "anchor", "Params."+kv[i].(string), "")
		}
	}
	return v
}

// ruleProfileRights: who may change what.
func ruleProfileRights(c *Check) {
	m := c.proMachine()
	pt := c.P.typeOf(proT, "Params")
	if m == nil || !c.oblige(pt != nil, "anchor", "Params", "") {
		return
	}
	const (
		kSign   = "only those entitled may set it"
		kSet    = "exactly what was asked for is set"
		kField  = "an update changes the field it names"
		kCreate = "an account is created once, for its price, without anything that has to be paid for"
		kOwn    = "what is bought, measured or given away is changed by the operation for it only"
	)
	x, y, z := Sym("signer1"), Sym("signer2"), Sym("stranger")
	lists := []string{"StorageSigners", "VpnSigners", "TokenRateSigners", "Creators"}
	key := modPath + "/" + proK
	defer func() { m.msg, m.pars[key] = nil, Sym("params") }()
	for _, o := range []struct{ name, list, field string }{{"SetRate", "TokenRateSigners", ""}, {"SetVpnCurrent", "VpnSigners", "VpnCurrent"}, {"SetStorageCurrent", "StorageSigners", "StorageCurrent"}} {
		f := c.method(proK, "MsgServer", o.name)
		if f == nil {
			continue
		}
		bad, badSet := "", ""
		n := map[bool]int{}
		for _, who := range []*V{x, y, z} {
			kv := []interface{}{}
			for _, l := range lists {
				if l == o.list {
					kv = append(kv, l, List(x, y))
				} else {
					kv = append(kv, l, List(z))
				}
			}
			pc := proCase{nick: "Old", until: 2, im: 2}
			rec := m.load(pc)
			m.also(identity(x, y, z))
			m.pars[key] = m.params(kv...)
			m.msg = map[string]*V{"Sender": who, "Value": Sym("value")}
			for _, p := range m.run(f, pc, rec) {
				if p.O.panic {
					continue
				}
				changed := p.has(func(e Ev) bool { return e.Kind == "Set" || e.Kind == "Delete" || e.Kind == "Params" })
				if who == z {
					n[false]++
					if p.ok() || changed {
						bad = "a stranger: " + p.exit(c)
					}
					continue
				}
				if !p.ok() {
					continue
				}
				n[true]++
				nv := m.rec(p.O.st, proAcc)
				var set *V
				for _, e := range p.Ev {
					if e.Kind == "Params" {
						set = e.Args[0]
					}
				}
				if o.field == "" {
					if set == nil || nv != rec {
						badSet = "not saved"
						continue
					}
					s := pt.Underlying().(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						was, is := fieldVal(m.pars[key], pt, s.Field(i).Name()), fieldVal(set, pt, s.Field(i).Name())
						if s.Field(i).Name() == "TokenRate" {
							was = Sym("value")
						}
						if was != is && !(is != nil && is.is("param") && s.Field(i).Name() == "CardMagic") {
							badSet = s.Field(i).Name() + " becomes " + is.str(4)
						}
					}
					continue
				}
				if set != nil || nv == nil || m.field(nv, o.field) != Sym("value") {
					badSet = "not set"
					continue
				}
				m.others(p, rec, nv, o.field, func(why string) { badSet = why })
			}
		}
		c.oblige(bad == "" && n[false] > 0, kSign, o.name, bad)
		c.oblige(badSet == "" && n[true] >= 2, kSet, o.name, badSet, n[true])
	}
	m.msg, m.pars[key] = nil, Sym("params")
	// updates
	upd, ut := c.method(proK, "MsgServer", "UpdateProfile"), c.P.typeOf(proT, "MsgUpdateProfile_Update")
	if upd != nil && c.oblige(ut != nil, "anchor", "MsgUpdateProfile_Update", "") {
		sc := c.P.pkg(proT).Pkg.Scope()
		want := map[string]string{"AUTO_PAY": "AutoPay", "NODING": "Noding", "STORAGE": "Storage", "VALIDATOR": "Validator", "VPN": "Vpn", "NICKNAME": "Nickname", "IM_AUTO_PAY": "AutoPayImExtra"}
		names := []string{}
		for _, n := range sc.Names() {
			if strings.HasPrefix(n, "MsgUpdateProfile_Update_FIELD_") {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		c.oblige(len(names) >= 7, "anchor", "fields of updates", len(names))
		for _, n := range names {
			k, ok := sc.Lookup(n).(*types.Const)
			if !ok {
				continue
			}
			num, _ := constant.Int64Val(k.Val())
			short := strings.TrimPrefix(n, "MsgUpdateProfile_Update_FIELD_")
			fld := want[short]
			bad, cnt := "", 0
			pc := proCase{nick: "Old", want: "New", until: 2, im: 2}
			rec := m.load(pc)
			m.updates = []*V{update(Sym("upd"), FieldSel(ut, 0), Int(num))}
			for _, p := range m.run(upd, pc, rec) {
				if p.O.panic || !p.ok() {
					continue
				}
				cnt++
				nv := m.rec(p.O.st, proAcc)
				m.others(p, rec, nv, fld, func(why string) { bad = why + " " + p.exit(c) })
				if nv != nil && fld != "" {
					w := Sym("flag")
					if fld == "Nickname" {
						w = Str("New")
					}
					if g := m.field(nv, fld); g != w {
						bad = fld + " becomes " + g.str(4) + " " + p.exit(c)
					}
				}
			}
			c.oblige(bad == "" && (cnt > 0 || fld == ""), kField, short, bad, cnt)
		}
	}
	// new accounts
	if f := c.method(proK, "MsgServer", "CreateAccount"); f != nil {
		bad := ""
		n := map[string]int{}
		price := Sym("renameprice")
		for _, free := range []bool{false, true} {
			for _, exists := range []bool{false, true} {
				creator := z
				if free {
					creator = y
				}
				pc := proCase{none: true, want: "New"}
				rec := m.load(pc)
				m.also(identity(x, y, z))
				m.also(func(a *V) (bool, bool) {
					if a.is("isnil") && a.args[0].hasOp("call:") && strings.HasSuffix(a.args[0].op, "AccountKeeper.GetAccount") {
						return !exists, true
					}
					return false, false
				})
				m.pars[key] = m.params("Creators", List(x, y), "RenamePrice", price, "StorageSigners", List(z), "VpnSigners", List(z), "TokenRateSigners", List(z))
				m.msg = map[string]*V{"Creator": creator, "Referrer": Sym("referrer")}
				for _, p := range m.run(f, pc, rec) {
					if p.O.panic {
						continue
					}
					what := fmt.Sprint("exists: ", exists, ", free: ", free, " ", p.exit(c))
					if exists {
						n["exists"]++
						if p.ok() || p.has(func(e Ev) bool { return e.Kind == "Set" || e.Kind == "call" && e.Fn != nil && !c.P.readOnly(e.Fn) }) {
							bad = what + ": goes on"
						}
						continue
					}
					if !p.ok() {
						continue
					}
					n["created"]++
					var paid, append_, comp int
					for _, e := range p.effects() {
						switch e.Fn.Name() {
						case "SendCoinsFromAccountToModule":
							paid++
							if stripIface(e.Args[2]) != creator || e.Args[3] != Str("fee_collector") || !coinPoly(e.Args[4], "uartr").eq(polyVar(price)) {
								bad = what + ": pays " + List(e.Args...).str(5)
							}
						case "AppendChild":
							append_++
							if stripIface(e.Args[2]) != Sym("referrer") || !m.sameAcc(e.Args[3]) {
								bad = what + ": referral " + List(e.Args...).str(5)
							}
						case "ScheduleCompression":
							comp++
							if t := e.Args[3]; !m.sameAcc(e.Args[2]) || !t.is("call:(time.Time).Add") || !t.args[0].is("blocktime") || !strings.HasSuffix(t.args[1].op, ".CompressionPeriod") {
								bad = what + ": compression " + List(e.Args...).str(5)
							}
						default:
							if strings.HasPrefix(fnPkgPath(e.Fn), modPath+"/"+bankK) {
								bad = what + ": " + e.Fn.Name()
							}
						}
					}
					lo, hi := p.sign(polyVar(price))
					switch {
					case append_ != 1 || comp != 1:
						bad = fmt.Sprint(what, ": ", append_, " referral records, ", comp, " compressions scheduled")
					case free && paid != 0 || paid > 1:
						bad = fmt.Sprint(what, ": paid ", paid, " times")
					case !free && paid == 0 && hi > 0:
						bad = what + ": for free"
					}
					_ = lo
					nv := m.rec(p.O.st, proAcc)
					if nv == nil {
						bad = what + ": no profile"
						continue
					}
					for _, fl := range []string{"ActiveUntil", "StorageLimit", "StorageCurrent", "VpnLimit", "VpnCurrent", "ImLimitExtra", "ExtraImUntil"} {
						if g := m.field(nv, fl); !isZeroV(g) && g != vNil {
							bad = what + ": " + fl + " is " + g.str(4)
						}
					}
					if d := m.field(nv, "CardNumber"); !d.mentions(func(v *V) bool { return strings.HasSuffix(v.op, ".GetAccountNumber") }) {
						bad = what + ": card " + d.str(4)
					}
				}
			}
		}
		c.oblige(bad == "" && n["exists"] > 0 && n["created"] >= 4, kCreate, "CreateAccount", bad, n["created"])
	}
	m.msg, m.pars[key] = nil, Sym("params")
	// fields
	owners := map[string]string{
		"AutoPay": "", "Noding": "", "Storage": "", "Validator": "", "Vpn": "", "Nickname": "", "CardNumber": "",
		"AutoPayImExtra": "HandleRenewImHook", "ActiveUntil": "PayTariff HandleRenewHook",
		"StorageLimit": "PayTariff BuyStorage GiveStorageUp HandleRenewHook", "StorageCurrent": "SetStorageCurrent",
		"VpnLimit": "PayTariff BuyVpn HandleRenewHook", "VpnCurrent": "PayTariff SetVpnCurrent HandleRenewHook",
		"ImLimitExtra": "BuyImStorage GiveImStorageUp HandleRenewImHook", "ExtraImUntil": "BuyImStorage GiveImStorageUp ProlongImExtra HandleRenewImHook",
	}
	bad := map[string]string{}
	runs := 0
	for _, f := range m.funcs() {
		switch f.Name() {
		case "SetProfile", "CreateAccount", "CreateAccountWithProfile", "ImportProfileRecords", "UpdateProfile":
			continue
		}
		for until := 0; until < 3; until++ {
			for im := 0; im < 3; im++ {
				pc := proCase{nick: "Old", want: "Old", until: until, im: im}
				rec := m.load(pc)
				for _, p := range m.run(f, pc, rec) {
					if p.O.panic || !p.ok() {
						continue
					}
					runs++
					nv := m.rec(p.O.st, proAcc)
					if nv == nil {
						bad["AutoPay"] = f.Name() + ": the profile is gone"
						continue
					}
					s := m.typ.Underlying().(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						fn := s.Field(i).Name()
						if by, ok := owners[fn]; ok && !hasWord(by, strings.TrimPrefix(strings.Replace(f.Name(), "BuyImExtraStorage", "BuyImStorage", 1), "")) && !hasWord(by, msgOf[f.Name()]) && m.field(rec, fn) != taskTime(m.field(nv, fn)) {
							bad[fn] = f.Name() + " " + p.exit(c) + ": " + m.field(nv, fn).str(4)
						}
					}
				}
			}
		}
	}
	for _, fn := range proFields {
		c.oblige(bad[fn] == "" && runs >= 100, kOwn, fn, bad[fn], runs)
	}
}

// msgOf: the operation of the keeper a message of another name is for.
var msgOf = map[string]string{"BuyImExtraStorage": "BuyImStorage", "GiveUpImExtra": "GiveImStorageUp"}

// ruleActivity: the network of referrals is told when an account becomes active and when it is no longer.
func ruleActivity(c *Check) {
	m := c.proMachine()
	set := c.method(proK, "Keeper", "SetProfile")
	if m == nil || set == nil {
		return
	}
	bad, runs, told := "", 0, 0
	note := func(p *Path, what string, why ...interface{}) {
		bad = what + " " + p.exit(c) + ": " + fmt.Sprint(why...)
	}
	check := func(p *Path, what string, was, is bool) {
		runs++
		n := 0
		for _, e := range p.effects() {
			if e.Fn.Name() != "MustSetActive" && e.Fn.Name() != "SetActive" {
				continue
			}
			n++
			v, kn := p.known(e.Args[3])
			if !kn || v != is || !m.sameAcc(e.Args[2]) {
				note(p, what, "reports ", e.Args[2].str(3), " ", e.Args[3].str(4))
			}
		}
		if was != is && n != 1 || was == is && n > 0 {
			note(p, what, "reported ", n, " times, active before: ", was, ", after: ", is)
		}
		told += n
	}
	// activity by a time on record
	active := func(p *Path, rec *V) (v, known bool) {
		u := taskTime(m.field(rec, "ActiveUntil"))
		if isNilV(u) {
			return false, true
		}
		return p.known(mkLt(rawApp("blocktime"), u))
	}
	for _, f := range m.funcs() {
		if typeName(deref(f.Signature.Recv().Type())) != proK+".Keeper" || f.Name() == "ImportProfileRecords" || f.Name() == "HandleRenewHook" || f == set || f.Name() == "CreateAccountWithProfile" {
			continue
		}
		for until := 0; until < 3; until++ {
			pc := proCase{nick: "Old", want: "Old", until: until, im: 2, none: f.Name() == "CreateAccount"}
			rec := m.load(pc)
			for _, p := range m.run(f, pc, rec) {
				if p.O.panic || !p.ok() {
					continue
				}
				nv := m.rec(p.O.st, proAcc)
				is, kn := active(p, nv)
				what := fmt.Sprint(f.Name(), " (", pc, ")")
				if !kn {
					note(p, what, "until ", m.field(nv, "ActiveUntil").str(4))
					continue
				}
				check(p, what, until == 2 && !pc.none, is)
			}
		}
	}
	// any profile saved
	for _, none := range []bool{false, true} {
		for until := 0; until < 3; until++ {
			for given := 0; given < 3; given++ {
				pc := proCase{nick: "Old", want: "Old", until: until, im: 2, none: none}
				rec := m.load(pc)
				gu := Sym("givenuntil")
				m.also(func(a *V) (bool, bool) {
					if a.is("lt") && a.args[0].is("blocktime") && a.args[1] == gu {
						return given == 2, true
					}
					if a.is("isnil") && a.args[0] == gu {
						return false, true
					}
					return false, false
				})
				w := m.set(Sym("given"), "Nickname", "Old", "CardNumber", proCard[0], "ActiveUntil", vNil, "ExtraImUntil", vNil)
				if given > 0 {
					w = m.set(w, "ActiveUntil", gu)
				}
				m.over = map[int]*V{2: w}
				for _, p := range m.run(set, pc, rec) {
					if p.O.panic || !p.ok() {
						continue
					}
					check(p, fmt.Sprint("SetProfile (", pc, "), until ", given), until == 2 && !none, given == 2)
				}
				m.over = nil
			}
		}
	}
	c.oblige(bad == "" && runs >= 60 && told >= 6, "the referral network is told once of every change of activity, and of nothing else", "operations on profiles", bad, runs, " paths, told ", told)
	// the end of a subscription
	if renew := c.method(proK, "Keeper", "HandleRenewHook"); renew != nil {
		bad, n := "", map[bool]int{}
		pc := proCase{nick: "Old", until: 1, im: 2}
		rec := m.load(pc)
		for _, p := range m.run(renew, pc, rec) {
			if p.O.panic || !p.ok() {
				continue
			}
			nv := m.rec(p.O.st, proAcc)
			if nv == nil {
				bad = "the profile is gone"
				continue
			}
			is, kn := active(p, nv)
			if !kn {
				bad = "until " + m.field(nv, "ActiveUntil").str(4)
			}
			n[is]++
			last := is
			calls := 0
			for _, e := range p.effects() {
				if e.Fn.Name() == "MustSetActive" || e.Fn.Name() == "SetActive" {
					v, kn := p.known(e.Args[3])
					if !kn || !m.sameAcc(e.Args[2]) {
						bad = "reports " + e.Args[2].str(3) + " " + e.Args[3].str(4)
					}
					last = v
					calls++
				}
			}
			// the network takes the account for active so far
			if last != is || !is && calls == 0 {
				bad = fmt.Sprint("active: ", is, ", reported ", last, " ", p.exit(c))
			}
		}
		c.oblige(bad == "" && n[true] > 0 && n[false] > 0, "the referral network is told when a subscription ends", "HandleRenewHook", bad)
	}
}
