package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	proT = "x/profile/types"
	proK = "x/profile/keeper"
)

func init() {
	register("P01", ruleNicknames)
}

// proMachine: the records of profiles, the nicknames and the numbers of cards.
type proMachine struct {
	c                  *Check
	typ                types.Type
	data, alias, cards *kvMachine
	get                *ssa.Function // GetProfile
	nick               string        // what a new nickname in a message is
	until, imUntil     *V            // times on record
	active, imActive   bool          // whether they are after the block
	hyp                func(x *Exec, a *V, st *State) (bool, bool)
	fresh              int
	pars               map[string]*V
	updates            []*V
	over               map[int]*V // arguments
	msg                map[string]*V
	announced          bool
}

var proFields = []string{"AutoPay", "ActiveUntil", "Noding", "Storage", "Validator", "Vpn", "Nickname", "CardNumber", "StorageLimit", "StorageCurrent", "VpnLimit", "VpnCurrent", "ImLimitExtra", "ExtraImUntil", "AutoPayImExtra"}

func (c *Check) proMachine() *proMachine {
	m := &proMachine{c: c, typ: c.P.typeOf(proT, "Profile"), get: c.method(proK, "Keeper", "GetProfile"), until: Sym("until"), imUntil: Sym("imuntil"),
		pars: map[string]*V{modPath + "/" + proK: Sym("params"), modPath + "/" + refK: Sym("refparams"), modPath + "/" + bankK: Sym("bankparams")}}
	if !c.oblige(m.typ != nil && m.get != nil, "anchor", "profiles", "") {
		return nil
	}
	for _, n := range proFields {
		if !c.oblige(fieldVal(Sym("r"), m.typ, n) != nil, "anchor", "Profile."+n, "") {
			return nil
		}
	}
	nothing := func(k *V) *V { return vNil }
	for _, s := range []struct {
		konst string
		k     **kvMachine
	}{{"StoreKey", &m.data}, {"AliasStoreKey", &m.alias}, {"CardStoreKey", &m.cards}} {
		n, _ := c.P.constOf(proT, s.konst)
		if !c.oblige(n != "", "anchor", proT+"."+s.konst, "") {
			return nil
		}
		*s.k = &kvMachine{c: c, store: n, init: map[*V]*V{}, def: nothing}
	}
	return m
}

func (m *proMachine) set(rec *V, kv ...interface{}) *V {
	s := m.typ.Underlying().(*types.Struct)
	for i := 0; i+1 < len(kv); i += 2 {
		for j := 0; j < s.NumFields(); j++ {
			if s.Field(j).Name() == kv[i].(string) {
				v, ok := kv[i+1].(*V)
				if !ok {
					switch x := kv[i+1].(type) {
					case bool:
						v = Bool(x)
					case int:
						v = Int(int64(x))
					case string:
						v = Str(x)
					}
				}
				rec = update(rec, FieldSel(m.typ, j), v)
			}
		}
	}
	return rec
}

func (m *proMachine) field(rec *V, n string) *V { return fieldVal(rec, m.typ, n) }

// rec is the record of the account (nil: none).
func (m *proMachine) rec(st *State, acc *V) *V {
	v := m.data.at(st, acc)
	if v == nil || !v.is("encode") {
		return nil
	}
	return v.args[0]
}

func (m *proMachine) clear() {
	for _, k := range []*kvMachine{m.data, m.alias, m.cards} {
		k.init, k.order = map[*V]*V{}, nil
	}
}

func put(k *kvMachine, key, v *V) {
	if k.init[key] == nil {
		k.order = append(k.order, key)
	}
	k.init[key] = v
}

func (m *proMachine) call(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
	switch {
	case ci.Fn != nil && ci.Fn == m.get:
		// every reader gets a copy of its own
		rec := m.rec(st, stripIface(x.snap(st, ci.Args[2])))
		if rec == nil {
			return true, []Outcome{{vals: []*V{vNil}, st: st}}
		}
		m.fresh++
		at := func(n string) *V { return rawApp("alloc", rawApp(n, ci.Site, Int(int64(m.fresh)))) }
		for _, f := range []string{"ActiveUntil", "ExtraImUntil"} {
			if v := m.field(rec, f); v != vNil {
				a := at(f)
				st.mem[a] = v
				rec = m.set(rec, f, Addr(a))
			}
		}
		a := at("profile")
		st.mem[a] = rec
		return true, []Outcome{{vals: []*V{Addr(a)}, st: st}}
	case ci.Fn != nil && ci.Fn.Name() == "GetParams" && len(m.pars) > 0 && m.pars[fnPkgPath(ci.Fn)] != nil:
		return true, []Outcome{{vals: []*V{m.pars[fnPkgPath(ci.Fn)]}, st: st}}
	case strings.HasSuffix(ci.Name, "types.Context).CacheContext"):
		ctx := x.snap(st, ci.Args[0])
		return true, []Outcome{{vals: []*V{rawApp("cachectx", ctx, ci.Site), rawApp("cachewrite", ctx, ci.Site)}, st: st}}
	case strings.HasPrefix(ci.Name, "dynamic:cachewrite("):
		addTrace(st, Ev{Kind: "commit", At: ci.Instr})
		return true, []Outcome{{st: st}}
	case ci.Fn != nil && ci.Fn.Name() == "GetString_" && fnPkgPath(ci.Fn) == modPath+"/"+proT:
		return true, []Outcome{{vals: []*V{Str(m.nick)}, st: st}}
	case ci.Fn != nil && ci.Fn.Name() == "GetBool" && fnPkgPath(ci.Fn) == modPath+"/"+proT:
		return true, []Outcome{{vals: []*V{Sym("flag")}, st: st}}
	case isEmit(ci) || ci.Fn != nil && ci.Fn.Name() == "EmitEvents" && fnPkgPath(ci.Fn) == modPath+"/util":
		addTrace(st, Ev{Kind: "emit", Args: snapAll(x, st, ci.Args[1:]), At: ci.Instr})
		return true, []Outcome{{st: st}}
	}
	return false, nil
}

func (m *proMachine) opts() pathOpts {
	own := samePkgOf(modPath + "/" + proK)
	return pathOpts{inline: func(f *ssa.Function) bool {
		return (own(f) || strings.HasSuffix(fnPkgPath(f), "/types")) && !isGenerated(m.c.P, f) && (own(f) || !m.c.numeric(f))
	}, unroll: 3, limit: 1000, outLimit: 1000, announced: m.announced,
		watchI: func(ci *CallInfo) bool {
			return m.c.bankCalls(ci) || inPkg(schedK)(ci) || inPkg(refK)(ci) && !m.c.P.readOnly(ci.Fn)
		},
		onCall: machines(m.call, m.data.call, m.alias.call, m.cards.call),
		hyp: func(x *Exec, a *V, st *State) (bool, bool) {
			if m.hyp != nil {
				if v, ok := m.hyp(x, a, st); ok {
					return v, ok
				}
			}
			return wellCoded(x, a, st)
		}}
}


func (m *proMachine) funcs() (r []*ssa.Function) {
	c := m.c
	w := map[*ssa.Function]bool{}
	for _, o := range c.P.storeOps() {
		if (o.Store[m.data.store] || o.Store[m.alias.store] || o.Store[m.cards.store]) && (o.Op == "Set" || o.Op == "Delete") {
			w[o.Fn] = true
		}
	}
	reach := c.P.reaching(w)
	for _, f := range c.P.Funcs {
		if reach[f] && fnPkgPath(f) == modPath+"/"+proK && f.Signature.Recv() != nil && f.Synthetic == "" && f.Object() != nil && f.Object().Exported() {
			switch typeName(deref(f.Signature.Recv().Type())) {
			case proK + ".Keeper", proK + ".MsgServer":
				r = append(r, f)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return shortFn(r[i]) < shortFn(r[j]) })
	return
}

// proCase is what there is before an operation.
type proCase struct {
	none       bool // no profile
	until      int  // 0: never active, 1: not any more, 2: active
	im         int  // 0: none, 1: due now, 2: for some time
	nick, want string
	card       int // the number in the profile to be saved: 0 none, 1 the same, 2 another
}

func (n proCase) String() string {
	s := []string{"nickname " + n.nick, "wants " + n.want, []string{"never active", "not active", "active"}[n.until], []string{"no IM", "IM due", "IM"}[n.im], []string{"no card given", "same card", "another card"}[n.card]}
	if n.none {
		s[0] = "no profile"
	}
	return strings.Join(s, ", ")
}

var (
	proAcc, proBob = Sym("acc"), Sym("bob")
	proCard        = []*V{Int(0), Sym("card0"), Sym("card2")}
)

// load makes the case the state to begin with.
func (m *proMachine) load(n proCase) (rec *V) {
	m.clear()
	acc, bob := proAcc, proBob
	bc := Sym("card1")
	mk := func(a *V, nick string, card *V, u, im *V) *V {
		r := m.set(rawApp("rec", a), "Nickname", nick, "CardNumber", card, "ActiveUntil", u, "ExtraImUntil", im)
		if im == vNil {
			r = m.set(r, "ImLimitExtra", 0)
		}
		put(m.data, a, rawApp("encode", r))
		if nick != "" {
			put(m.alias, Str(strings.ToLower(nick)), a)
		}
		put(m.cards, rawApp("bytesof", card), a)
		return r
	}
	mk(bob, "Bob", bc, vNil, vNil)
	u, im := vNil, vNil
	if n.until > 0 {
		u = m.until
	}
	if n.im > 0 {
		im = m.imUntil
	}
	if !n.none {
		rec = mk(acc, n.nick, proCard[1], u, im)
	}
	m.active, m.imActive = n.until == 2, n.im == 2
	m.nick = n.want
	m.hyp = func(x *Exec, a *V, st *State) (bool, bool) {
		switch {
		case a.is("eq") && len(a.args) == 2:
			l, r := stripIface(a.args[0]), stripIface(a.args[1])
			number := func(v *V) bool { return v.mentions(func(y *V) bool { return strings.HasSuffix(y.op, ".GetAccountNumber") }) }
			if number(l) && isZeroV(r) || number(r) && isZeroV(l) {
				return false, true // the number of a card is not 0
			}
			sy := func(v *V) bool { return v == acc || v == bob }
			if sy(l) && sy(r) {
				return l == r, true
			}
			cd := func(v *V) bool { return v == proCard[1] || v == proCard[2] || v == bc }
			if (cd(l) || isZeroV(l)) && (cd(r) || isZeroV(r)) {
				return l == r, true
			}
			ex := vNil
			if rec != nil {
				ex = m.field(rec, "ImLimitExtra")
			}
			if n.im > 0 && rec != nil && (l == ex && isZeroV(r) || r == ex && isZeroV(l)) {
				return false, true
			}
		case a.is("isnil"):
			switch v := stripIface(a.args[0]); {
			case v == acc, v == bob, v == m.until, v == m.imUntil:
				return false, true
			}
		case a.is("lt") && isZeroV(a.args[1]) && unsignedArg(a.args[0]):
			return false, true
		case a.is("lt") && a.args[0].is("blocktime"):
			switch t := a.args[1]; {
			case t == m.until:
				return m.active, true
			case t == m.imUntil:
				return m.imActive, true
			case months(t) > 0, t.is("call:(time.Time).Add") && (t.args[0] == m.until || t.args[0] == m.imUntil):
				return true, true
			}
		}
		return false, false
	}
	return
}

func (m *proMachine) sel(n string) *V {
	s := m.typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return FieldSel(m.typ, i)
		}
	}
	return nil
}

// run explores an operation in a case.
func (m *proMachine) run(f *ssa.Function, n proCase, rec *V) []*Path {
	st := newState()
	args := []*V{Sym("k")}
	ps := f.Signature.Params()
	addrs := 0
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		switch tn := typeName(t); {
		case strings.HasSuffix(tn, "types.AccAddress") || t.String() == "[]byte":
			if addrs == 0 {
				args = append(args, proAcc)
			} else {
				args = append(args, Sym("referrer"))
			}
			addrs++
		case types.Identical(t, m.typ):
			w := m.set(Sym("given"), "Nickname", n.want, "CardNumber", proCard[n.card])
			if rec != nil {
				w = m.set(rec, "Nickname", n.want, "CardNumber", proCard[n.card])
			}
			for _, f := range []string{"ActiveUntil", "ExtraImUntil"} {
				if v := m.field(w, f); rec == nil {
					w = m.set(w, f, vNil)
				} else if v != vNil {
					a := rawApp("alloc", Sym("given"+f))
					st.mem[a] = v
					w = m.set(w, f, Addr(a))
				}
			}
			args = append(args, w)
		case strings.Contains(tn, "types.Msg"):
			mt := deref(t)
			msg := Sym("msg")
			s := mt.Underlying().(*types.Struct)
			for j := 0; j < s.NumFields(); j++ {
				if v := m.msg[s.Field(j).Name()]; v != nil {
					msg = update(msg, FieldSel(mt, j), v)
					continue
				}
				switch s.Field(j).Name() {
				case "Address", "AccAddress":
					msg = update(msg, FieldSel(mt, j), proAcc)
				case "Profile":
					b := rawApp("alloc", Sym("msgprofile"))
					st.mem[b] = m.set(Sym("given"), "Nickname", n.want, "ActiveUntil", vNil, "ExtraImUntil", vNil)
					msg = update(msg, FieldSel(mt, j), Addr(b))
				case "Updates":
					msg = update(msg, FieldSel(mt, j), List(m.updates...))
				}
			}
			a := rawApp("alloc", Sym("msg"))
			st.mem[a] = msg
			args = append(args, Addr(a))
		default:
			args = append(args, Sym("arg"+itoa(i)))
		}
		if v := m.over[i]; v != nil {
			args[len(args)-1] = v
		}
	}
	o := m.opts()
	o.st = st
	return m.c.paths(f, args, o)
}

// checkIndex compares the indexes of nicknames and of cards with the records.
func (m *proMachine) checkIndex(st *State) string {
	nicks, cards := map[*V]*V{}, map[*V]*V{}
	for _, a := range m.data.all(st) {
		r := m.rec(st, a)
		if r == nil {
			return "a record is " + m.data.at(st, a).str(4)
		}
		n, ok := strOf(m.field(r, "Nickname"))
		if !ok {
			return "a nickname is " + m.field(r, "Nickname").str(4)
		}
		if n != strings.TrimSpace(n) {
			return "saved with spaces around it: " + strconvQuote(n)
		}
		if n != "" {
			if nicks[Str(strings.ToLower(n))] != nil {
				return "two accounts are called " + n
			}
			if strings.HasPrefix(strings.ToUpper(n), "ARTR-") {
				return "reserved nickname " + n
			}
			nicks[Str(strings.ToLower(n))] = a
		}
		if d := m.field(r, "CardNumber"); !isZeroV(d) {
			cards[rawApp("bytesof", d)] = a
		}
	}
	for _, x := range []struct {
		k    *kvMachine
		want map[*V]*V
		what string
	}{{m.alias, nicks, "nickname"}, {m.cards, cards, "card"}} {
		for _, k := range x.k.all(st) {
			if g := stripIface(x.k.at(st, k)); g != x.want[k] {
				w := "nobody"
				if x.want[k] != nil {
					w = x.want[k].str(3)
				}
				return x.what + " " + k.str(3) + " leads to " + g.str(3) + " and is of " + w
			}
		}
		for k, a := range x.want {
			if x.k.at(st, k) == nil || x.k.at(st, k) == vNil {
				return x.what + " " + k.str(3) + " of " + a.str(3) + " leads nowhere"
			}
		}
	}
	return ""
}

// leads: who is found by a nickname or by the number of a card is the one who has it.
func (m *proMachine) leads() {
	const rule = "who is found by a nickname or a card number is the one who has it"
	c := m.c
	kinds := map[string]int{}
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+proK || f.Synthetic != "" || f.Signature.Recv() == nil || typeName(deref(f.Signature.Recv().Type())) != proK+".Keeper" || f.Signature.Params().Len() != 2 || f.Signature.Results().Len() != 1 || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if t := f.Signature.Results().At(0).Type(); !strings.HasSuffix(typeName(t), "types.AccAddress") {
			continue
		}
		asks := map[*V]*V{}
		kind := f.Signature.Params().At(1).Type().String()
		switch kind {
		case "string":
			asks = map[*V]*V{Str("Old"): proAcc, Str("oLD"): proAcc, Str("Bob"): proBob, Str("BOB"): proBob, Str("None"): nil}
		case "uint64":
			asks = map[*V]*V{proCard[1]: proAcc, Sym("card1"): proBob, proCard[2]: nil}
		default:
			continue
		}
		m.load(proCase{nick: "Old", want: "Old", until: 2, im: 2})
		for arg, want := range asks {
			n := 0
			for _, p := range c.paths(f, []*V{Sym("k"), Sym("ctx"), arg}, m.opts()) {
				n++
				got := vNil
				if !p.O.panic {
					got = stripIface(p.X.snap(p.O.st, p.O.vals[0]))
				}
				c.oblige(!p.O.panic && (got == want || want == nil && isNilV(got)), rule, shortFn(f)+" "+arg.str(3), got.str(4))
			}
			c.oblige(n > 0, rule, shortFn(f), "no answer")
		}
		kinds[kind]++
	}
	c.oblige(kinds["string"] > 0 && kinds["uint64"] > 0, "anchor", "functions that find an account", kinds)
}

func strconvQuote(s string) string { return fmt.Sprintf("%q", s) }

func ruleNicknames(c *Check) {
	m := c.proMachine()
	set, create, createMsg, upd := c.method(proK, "Keeper", "SetProfile"), c.method(proK, "Keeper", "CreateAccountWithProfile"), c.method(proK, "MsgServer", "CreateAccount"), c.method(proK, "MsgServer", "UpdateProfile")
	if m == nil || set == nil || create == nil || createMsg == nil || upd == nil {
		return
	}
	ut := c.P.typeOf(proT, "MsgUpdateProfile_Update")
	nickField := c.P.pkg(proT).Pkg.Scope().Lookup("MsgUpdateProfile_Update_FIELD_NICKNAME")
	if !c.oblige(ut != nil && nickField != nil, "anchor", "an update of a nickname", "") {
		return
	}
	nf, _ := constant.Int64Val(nickField.(*types.Const).Val())
	m.updates = []*V{update(Sym("upd"), FieldSel(ut, 0), Int(nf))}
	m.leads()
	fns := m.funcs()
	const kIdx, kOther, kTaken, kFee = "every nickname and card leads to the profile it is of, and to no other", "nobody else's profile is touched", "a taken or reserved nickname is refused", "a rename costs 1 ARTR, nothing else is charged for it"
	bad := map[string]string{}
	note := func(k, what string, why ...interface{}) {
		if bad[k] == "" {
			bad[k] = what + ": " + fmt.Sprint(why...)
		}
	}
	runs, okRuns := 0, 0
	for _, f := range fns {
		if f.Name() == "ImportProfileRecords" {
			continue
		}
		isSet := f == set || f == upd || f == create || f == createMsg
		for _, none := range []bool{false, true} {
			if f != set && none != (f.Name() == "CreateAccount" || f == create) {
				continue
			}
			nicks, wants, cards := []string{"", "Old"}, []string{"New"}, []int{0}
			if isSet {
				wants = []string{"", "Old", "OLD", "New", " New ", "Bob", "bOB ", "artr-1", "Artr-x"}
				if f == set && !none {
					cards = []int{0, 1, 2}
				}
			}
			if none {
				nicks = nicks[:1]
			}
			for _, nick := range nicks {
				for _, want := range wants {
					for _, card := range cards {
						n := proCase{none: none, nick: nick, want: want, card: card, until: 2, im: 2}
						if !isSet {
							n.want = nick
						}
						rec := m.load(n)
						other := m.rec(newState(), proBob)
						for _, p := range m.run(f, n, rec) {
							runs++
							if p.O.panic || !p.ok() {
								continue
							}
							okRuns++
							what := shortFn(f) + " (" + n.String() + ") " + p.exit(c)
							if why := m.checkIndex(p.O.st); why != "" {
								note(kIdx, what, why)
							}
							if m.rec(p.O.st, proBob) != other || len(m.data.all(p.O.st)) != 2 {
								note(kOther, what, m.rec(p.O.st, proBob).str(5))
							}
							w := strings.ToLower(strings.TrimSpace(n.want))
							if isSet && (w == "bob" || strings.HasPrefix(w, "artr-")) {
								note(kTaken, what, "accepted")
							}
							if isSet && f != createMsg {
								ms, why := p.moves()
								toFee := 0
								for _, e := range p.Ev {
									if e.Kind == "call" && e.Fn.Name() == "SendCoinsFromAccountToModule" {
										toFee++
										if e.Args[2] != proAcc || e.Args[3] != Str("fee_collector") || !coinPoly(e.Args[4], "uartr").eq(polyInt(1000000)) {
											note(kFee, what, List(e.Args...).str(6))
										}
										why = ""
									}
								}
								renamed := !none && strings.TrimSpace(n.want) != n.nick && w != ""
								if why != "" || len(ms) > 0 || toFee > 1 || (toFee == 1) != renamed {
									note(kFee, what, why, " charged ", toFee, " times")
								}
							}
						}
					}
				}
			}
		}
	}
	if imp, gt := c.method(proK, "Keeper", "ImportProfileRecords"), c.P.typeOf(proT, "GenesisProfile"); imp != nil && c.oblige(gt != nil, "anchor", "GenesisProfile", "") {
		why, n := "", 0
		for _, two := range [][]string{{"Old", "Bob"}, {"", "Bob"}, {"", ""}, {"Old", ""}} {
			m.load(proCase{none: true})
			m.clear()
			st := newState()
			l := []*V{}
			for i, a := range []*V{proAcc, proBob} {
				l = append(l, update(update(Sym("genesis"+itoa(i)), FieldSel(gt, 0), a), FieldSel(gt, 1), m.set(rawApp("rec", a), "Nickname", two[i], "ActiveUntil", vNil, "ExtraImUntil", vNil)))
			}
			o := m.opts()
			o.st = st
			o.unroll = 4
			for _, p := range c.paths(imp, []*V{Sym("k"), Sym("ctx"), List(l...)}, o) {
				if p.O.panic {
					continue
				}
				n++
				if w := m.checkIndex(p.O.st); w != "" || len(m.data.all(p.O.st)) != 2 {
					why = "profiles called " + strings.Join(two, ", ") + ": " + w
				}
			}
		}
		c.oblige(why == "" && n >= 4, kIdx, shortFn(imp), why, n)
	}
	for _, k := range []string{kIdx, kOther, kTaken, kFee} {
		c.oblige(bad[k] == "" && okRuns >= 60, k, "operations on profiles", bad[k], okRuns)
	}
	c.note("%d runs, %d succeed", runs, okRuns)
}

// unsignedArg: an unsigned argument of the operation.
func unsignedArg(v *V) bool {
	for v.k == KApp && len(v.args) == 1 && (v.hasOp("conv:") || v.is("conv")) {
		v = v.args[0]
	}
	return v == Sym("arg2")
}

// effects are the calls of other modules which last: what happened on a copy of the state that was dropped is left out.
func (p *Path) effects() (r []Ev) {
	committed := p.has(func(e Ev) bool { return e.Kind == "commit" })
	for _, e := range p.Ev {
		if e.Kind != "call" || e.Fn == nil {
			continue
		}
		if len(e.Args) > 1 && e.Args[1].is("cachectx") && !committed {
			continue
		}
		r = append(r, e)
	}
	return
}

// failed: the call of the path returned an error.
func (p *Path) failed(name string) bool {
	for a, v := range p.facts() {
		if a.is("isnil") && !v && a.args[0].hasOp("call:") && strings.Contains(a.args[0].op, name) {
			return true
		}
	}
	return false
}

// tasks are the tasks of an event which are there after the path, by time, given those before; why: what is wrong.
func (p *Path) tasks(hook, acc *V, before ...*V) (times []*V, why string) {
	times = append(times, before...)
	for _, e := range schedCalls(p.effects()) {
		switch e.Fn.Name() {
		case "ScheduleTask":
			if e.Args[3] != hook {
				continue
			}
			if e.Args[4] != acc {
				return nil, "scheduled for " + e.Args[4].str(4)
			}
			times = append(times, taskTime(e.Args[2]))
		case "Delete":
			if e.Args[3] != hook {
				continue
			}
			if e.Args[4] != acc {
				return nil, "cancelled for " + e.Args[4].str(4)
			}
			for i, t := range times {
				if t == taskTime(e.Args[2]) {
					times = append(append([]*V{}, times[:i]...), times[i+1:]...)
					break
				}
			}
		default:
			return nil, e.Fn.Name()
		}
	}
	return
}
