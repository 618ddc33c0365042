package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const bankK = "x/bank/internal/keeper"

func init() {
	register("M01", ruleSupply)
	register("M02", ruleOverspend)
	register("M03", ruleBalanceHooks)
	register("M04", ruleSend)
	register("M05", ruleFee)
}

func isAppPkg(f *ssa.Function) bool {
	p := fnPkgPath(f)
	return p == modPath+"/app" || strings.HasPrefix(p, modPath+"/cmd")
}

// fieldOf matches a term that is field F of a value of a type whose name ends with T.
func fieldOf(v *V, typ, field string) bool {
	v = stripIface(v)
	return v.k == KApp && strings.HasPrefix(v.op, "field:") && strings.HasSuffix(v.op, typ+"."+field)
}

func hasField(v *V, typ, field string) bool {
	return v.mentions(func(y *V) bool { return fieldOf(y, typ, field) })
}

// ruleSupply: books balance on every successful path of everything that changes balances or the supply.
func ruleSupply(c *Check) {
	l := newLedger(c)
	prim := map[*ssa.Function]bool{l.setBal: true, l.setSup: true}
	add := c.method(bankK, "BaseKeeper", "AddCoins")
	sub := c.method(bankK, "BaseKeeper", "SubtractCoins")
	initG := c.method(bankK, "BaseKeeper", "InitGenesis")
	if add == nil || sub == nil || initG == nil {
		return
	}
	// the two one-sided primitives: exactly the amount, on the account named
	for f, sign := range map[*ssa.Function]int64{add: 1, sub: -1} {
		args := []*V{Sym("keeper"), Sym("ctx"), Sym("account"), Sym("amount")}
		x := newExec(c.P, l.client())
		n := 0
		for _, o := range c.exploreX(x, f, args, nil) {
			if !succeeded(x, f, o) {
				continue
			}
			n++
			d := l.deltas(o.st)
			want := Lin{Sym("amount"): sign}
			ok := len(d) == 1 && d[Sym("account")].eq(want) && o.st.ev["bad"] == nil && o.st.ev["sup"] == nil
			c.oblige(ok, "one-sided change is exactly the amount", shortFn(f), "returns success having changed ", fmtDeltas(d), " ", badOf(o.st), " at ", c.P.pos(o.pos))
		}
		c.oblige(n > 0, "reachable success", shortFn(f), "no successful path found")
	}
	prim[add], prim[sub] = true, true
	// everything calling them
	g := c.P.graph()
	work := []*ssa.Function{}
	queued := map[*ssa.Function]bool{}
	push := func(f *ssa.Function) {
		if !queued[f] {
			queued[f] = true
			work = append(work, f)
		}
	}
	for p := range prim {
		for f := range g.in[p] {
			if prim[f] || f == initG || f.Synthetic != "" || isAppPkg(f) {
				continue
			}
			push(f)
		}
	}
	sort.Slice(work, func(i, j int) bool { return work[i].String() < work[j].String() })
	direct := len(work)
	c.oblige(direct >= 6, "coverage", "functions changing balances or supply", fmt.Sprintf("only %d found", direct))
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if f.Parent() != nil {
			push(f.Parent())
			continue
		}
		x := newExec(c.P, l.client())
		bad := ""
		n := 0
		for _, o := range c.exploreX(x, f, nil, nil) {
			if !succeeded(x, f, o) {
				continue
			}
			n++
			if o.st.ev["bad"] != nil {
				bad = badOf(o.st) + " at " + c.P.pos(o.pos)
				continue
			}
			net, sup := linOfV(o.st.ev["net"]), linOfV(o.st.ev["sup"])
			if !balancedWith(net.add(sup, -1), o.st) {
				if os.Getenv("CHECKER_DEBUG") != "" {
					for f, v := range o.st.facts {
						fmt.Println("   ", v, f)
					}
				}
				bad = fmt.Sprintf("a successful path (exit %s) changes balances by %s and the supply by %s", c.P.pos(o.pos), net, sup)
			}
		}
		if bad != "" && !(f.Object() != nil && f.Object().Exported()) && len(g.in[f]) > 0 {
			// a helper that is one side of the operation: its callers answer for the whole
			c.note("%s is not balanced by itself; its callers are held to it", shortFn(f))
			for p := range g.in[f] {
				if !isAppPkg(p) {
					push(p)
				}
			}
			continue
		}
		c.oblige(bad == "", "balances and supply change together", shortFn(f), bad)
		if n == 0 {
			c.note("%s has no successful path", shortFn(f))
		}
	}
	// nobody else writes the store
	allowed := map[*ssa.Function]bool{l.setBal: true, l.setSup: true}
	nw := 0
	for _, op := range c.P.storeOps() {
		if op.Op != "Set" && op.Op != "Delete" || isAppPkg(op.Fn) || !op.Store["artrbank"] {
			continue
		}
		nw++
		ok, w := c.P.confined(op.Fn, allowed)
		c.oblige(ok, "only the balance and supply setters write the bank store", shortFn(op.Fn), op.Op, " at ", posOf(c.P, op.In), " reachable outside them from ", shortFn(w))
	}
	c.oblige(nw >= 3, "coverage", "bank store writes", fmt.Sprintf("%d found", nw))
	// balances and supply go to and come from the same place
	ruleBankStore(c, l)
	// creating coins
	mint := c.method(bankK, "BaseKeeper", "MintCoins")
	if mint != nil {
		roots := c.P.txRoots()
		c.oblige(len(roots) >= 30, "coverage", "transaction, block and schedule entry points", fmt.Sprintf("%d found", len(roots)))
		for _, r := range roots {
			p := c.P.pathTo(r, mint)
			c.oblige(p == "", "minting is not reachable from transactions, blocks or scheduled tasks", shortFn(r), p)
		}
	}
}

func ruleBankStore(c *Check, l *Ledger) {
	// SetBalance: exactly one write of the given balance under a key made of the balances prefix and the address
	check := func(f *ssa.Function, keyOf func(k *V) string, valOK func(v *V) bool, what string) {
		args := []*V{Sym("keeper"), Sym("ctx")}
		for i := 2; i < len(f.Params); i++ {
			args = append(args, Sym("arg"+itoa(i-2)))
		}
		cl := &Client{Name: "store", OnCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if op, key, val, ok := c.P.kvCall(x, ci, st); ok {
				if op == "Set" || op == "Delete" {
					st.ev["w"] = rawApp(op, key, orNil(val))
					if st.ev["w1"] != nil {
						st.ev["w2"] = Bool(true)
					}
					st.ev["w1"] = Bool(true)
				}
				if op == "Get" {
					st.ev["r"] = key
				}
			}
			return false, nil
		}}
		x := newExec(c.P, cl)
		for _, o := range c.exploreX(x, f, args, nil) {
			if !succeeded(x, f, o) {
				continue
			}
			w := o.st.ev["w"]
			if w == nil {
				c.oblige(false, "the setter writes its value", shortFn(f), "a successful path writes nothing; exit ", c.P.pos(o.pos))
				continue
			}
			c.oblige(o.st.ev["w2"] == nil, "the setter writes once", shortFn(f), "two writes")
			c.oblige(keyOf(w.args[0]) == "", "the setter writes under its own key", shortFn(f), keyOf(w.args[0]))
			if w.op == "Set" {
				c.oblige(valOK(w.args[1]), "the setter writes its value", shortFn(f), "writes ", w.args[1])
			} else {
				// deleting is only right for nothing
				em, ok := o.st.facts[rawApp("coinszero", Sym("arg1"))]
				c.oblige(ok && em, "the setter deletes only empty balances", shortFn(f), "deletes without knowing the balance to be empty")
			}
		}
	}
	isBalKey := func(addr *V) func(k *V) string {
		return func(k *V) string {
			p := k.mentions(func(y *V) bool { return strings.HasSuffix(y.op, "x/bank/types.BalancesPrefix") })
			a := k.mentions(func(y *V) bool { return y == addr })
			if p && a {
				return ""
			}
			return "key " + k.String() + " is not made of the balances prefix and the address"
		}
	}
	check(l.setBal, isBalKey(Sym("arg0")), func(v *V) bool {
		return v.mentions(func(y *V) bool { return y == Sym("arg1") })
	}, "balance")
	isSup := func(k *V) string {
		if k.mentions(func(y *V) bool { return strings.HasSuffix(y.op, "x/bank/types.SupplyKey") }) {
			return ""
		}
		return "key " + k.String() + " is not the supply key"
	}
	check(l.setSup, isSup, func(v *V) bool { return v.mentions(func(y *V) bool { return y == Sym("arg0") }) }, "supply")
	for _, r := range []struct {
		f  *ssa.Function
		ok func(*V) string
	}{{l.getBal, isBalKey(Sym("arg0"))}, {l.getSup, isSup}} {
		cl := &Client{Name: "store", OnCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if op, key, _, ok := c.P.kvCall(x, ci, st); ok && op == "Get" {
				c.oblige(r.ok(key) == "", "the getter reads its own key", shortFn(r.f), r.ok(key))
				st.ev["read"] = Bool(true)
			}
			return false, nil
		}}
		args := []*V{Sym("keeper"), Sym("ctx"), Sym("arg0")}[:len(r.f.Params)]
		x := newExec(c.P, cl)
		for _, o := range c.exploreX(x, r.f, args, nil) {
			if o.panic {
				continue
			}
			c.oblige(o.st.ev["read"] != nil, "the getter reads the store", shortFn(r.f), "a path returns without reading")
			v := x.snap(o.st, o.vals[0])
			fromStore := v.mentions(func(y *V) bool { return y.is("decode") })
			empty := coinLin(v).zero()
			c.oblige(fromStore || empty, "the getter returns what is stored", shortFn(r.f), "returns ", v)
			if empty && !fromStore {
				nilv := false
				for fct, val := range o.st.facts {
					if val && fct.is("isnil") && fct.mentions(func(y *V) bool { return y.hasOp("call:invoke:") && strings.HasSuffix(y.op, "KVStore.Get") }) {
						nilv = true
					}
					if !val && strings.Contains(fct.op, "KVStore.Has") {
						nilv = true
					}
				}
				c.oblige(nilv, "an empty balance is returned only when nothing is stored", shortFn(r.f), "returns nothing without having seen that nothing is stored")
			}
		}
	}
}

func orNil(v *V) *V {
	if v == nil {
		return vNil
	}
	return v
}

// kvCall recognises an operation on a KVStore: its name, the (resolved) key and value.
func (P *Program) kvCall(x *Exec, ci *CallInfo, st *State) (op string, key, val *V, ok bool) {
	n := ci.Name
	if ci.Fn == nil {
		if ci.Iface == nil || !strings.HasSuffix(n, "types.KVStore."+ci.Iface.Name()) {
			return
		}
	} else if !strings.HasPrefix(n, "(github.com/cosmos/cosmos-sdk/store/prefix.Store).") && !strings.HasPrefix(n, "(*github.com/cosmos/cosmos-sdk/store/cachekv.Store).") {
		return
	}
	op = n[strings.LastIndexByte(n, '.')+1:]
	if len(ci.Args) > 1 {
		key = x.snap(st, ci.Args[1])
	}
	if len(ci.Args) > 2 {
		val = x.snap(st, ci.Args[2])
	}
	return op, key, val, true
}

func fmtDeltas(d map[*V]Lin) string {
	s := []string{}
	for a, l := range d {
		s = append(s, a.String()+": "+l.String())
	}
	sort.Strings(s)
	if len(s) == 0 {
		return "no balance"
	}
	return strings.Join(s, "; ")
}

func badOf(st *State) string {
	if b := st.ev["bad"]; b != nil {
		return "a balance or supply is written that is not its current value plus a change: " + b.String()
	}
	return ""
}

// ruleOverspend: taking more than there is fails before anything is written; invalid amounts too.
func ruleOverspend(c *Check) {
	l := newLedger(c)
	sub := c.method(bankK, "BaseKeeper", "SubtractCoins")
	add := c.method(bankK, "BaseKeeper", "AddCoins")
	if sub == nil || add == nil {
		return
	}
	acc, amt := Sym("account"), Sym("amount")
	args := []*V{Sym("keeper"), Sym("ctx"), acc, amt}
	isBal := func(v *V) bool {
		v = stripIface(v)
		return v.is("Bal") && v.args[0] == acc
	}
	run := func(f *ssa.Function, name string, hyp func(x *Exec, a *V, st *State) (bool, bool)) {
		used := false
		l.hyp = func(x *Exec, a *V, st *State) (bool, bool) {
			v, ok := hyp(x, a, st)
			used = used || ok
			return v, ok
		}
		x := newExec(c.P, l.client())
		for _, o := range c.exploreX(x, f, args, nil) {
			d := l.deltas(o.st)
			c.oblige(len(d) == 0, "nothing is written when "+name, shortFn(f), "changes ", fmtDeltas(d), " although ", name, " (exit ", c.P.pos(o.pos), ")")
			if !o.panic {
				c.oblige(!succeeded(x, f, o), "an error is returned when "+name, shortFn(f), "reports success although ", name, " (exit ", c.P.pos(o.pos), ")")
			}
		}
		l.hyp = nil
	}
	short := func(x *Exec, a *V, st *State) (bool, bool) {
		switch {
		case a.hasOp("call:(github.com/cosmos/cosmos-sdk/types.Coins).SafeSub#1") && isBal(a.args[0]) && stripIface(a.args[1]) == amt:
			return true, true
		case a.hasOp("call:(github.com/cosmos/cosmos-sdk/types.Coins).IsAllGTE") && isBal(a.args[0]) && stripIface(a.args[1]) == amt:
			return false, true
		case a.hasOp("call:(github.com/cosmos/cosmos-sdk/types.Coins).IsAllLTE") && isBal(a.args[1]) && stripIface(a.args[0]) == amt:
			return false, true
		case a.hasOp("call:(github.com/cosmos/cosmos-sdk/types.Coins).IsValid"):
			return true, true
		}
		return false, false
	}
	run(sub, "the account holds less than the amount", short)
	invalid := func(x *Exec, a *V, st *State) (bool, bool) {
		if a.hasOp("call:(github.com/cosmos/cosmos-sdk/types.Coins).IsValid") && stripIface(a.args[0]) == amt {
			return false, true
		}
		return false, false
	}
	run(sub, "the amount is not a valid coin set", invalid)
	run(add, "the amount is not a valid coin set", invalid)
	// the setter refuses invalid balances
	x := newExec(c.P, &Client{Name: "setter", Hyp: func(x *Exec, a *V, st *State) (bool, bool) {
		if a.hasOp("call:(github.com/cosmos/cosmos-sdk/types.Coins).IsValid") && stripIface(a.args[0]) == amt {
			return false, true
		}
		return false, false
	}, OnCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
		if op, _, _, ok := c.P.kvCall(x, ci, st); ok && (op == "Set" || op == "Delete") {
			st.ev["w"] = Bool(true)
		}
		return false, nil
	}})
	for _, o := range c.exploreX(x, l.setBal, args, nil) {
		c.oblige(o.st.ev["w"] == nil && (o.panic || !succeeded(x, l.setBal, o)), "an invalid balance is never stored", shortFn(l.setBal), "writes or succeeds; exit ", c.P.pos(o.pos))
	}
	// balances are written by the checked operations only
	g := c.P.graph()
	allowed := map[*ssa.Function]bool{sub: true, add: true}
	if f := c.method(bankK, "BaseKeeper", "InitGenesis"); f != nil {
		allowed[f] = true
	}
	n := 0
	for f := range g.in[l.setBal] {
		if f.Synthetic != "" || isAppPkg(f) {
			continue
		}
		n++
		ok, w := c.P.confined(f, allowed)
		c.oblige(ok, "balances are set only by the checked add and subtract", shortFn(f), "also from ", shortFn(w))
	}
	c.oblige(n >= 2, "coverage", "callers of the balance setter", n)
}

// ruleBalanceHooks: a stored balance change is announced to every registered observer, and an observer's failure fails
// the change.
func ruleBalanceHooks(c *Check) {
	l := newLedger(c)
	acc := Sym("account")
	args := []*V{Sym("keeper"), Sym("ctx"), acc, Sym("balance")}
	isHooks := func(v *V) bool {
		return v.mentions(func(y *V) bool { return y.hasOp("field:") && strings.HasSuffix(y.op, ".setCoinHooks") }) ||
			v.mentions(func(y *V) bool { return y.hasOp("field:x/bank/internal/keeper.BaseSendKeeper.") })
	}
	mk := func(fail bool) *Client {
		return &Client{Name: "hooks", Unroll: 2, Cut: true, Hyp: func(x *Exec, a *V, st *State) (bool, bool) {
			if a.is("rangenext") && isHooks(a.args[0]) {
				if st.ev["hook1"] == nil && st.ev["skip"] == nil {
					return true, true
				}
			}
			if a.is("lt") && a.args[1].is("len") && isHooks(a.args[1]) {
				if n, ok := intOf(a.args[0]); ok && n == 0 {
					return true, true
				}
			}
			if a.is("eq") && (a.args[0].is("len") && isHooks(a.args[0]) || a.args[1].is("len") && isHooks(a.args[1])) {
				return false, true
			}
			if fail && a.is("isnil") && a.args[0].hasOp("call:hook") {
				return false, true
			}
			return false, false
		}, OnCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if op, _, _, ok := c.P.kvCall(x, ci, st); ok && (op == "Set" || op == "Delete") {
				st.ev["w"] = Bool(true)
				delete(st.ev, "hook1")
			}
			if ci.Fn == nil && ci.Iface == nil && strings.HasPrefix(ci.Name, "dynamic:") {
				ok := false
				for _, a := range ci.Args[1:] {
					if x.snap(st, a) == acc {
						ok = true
					}
				}
				if ok && st.ev["w"] != nil {
					st.ev["hook1"] = Bool(true)
				}
				return true, []Outcome{{vals: []*V{rawApp("call:hook", ci.Site)}, st: st}}
			}
			return false, nil
		}}
	}
	x := newExec(c.P, mk(false))
	n := 0
	for _, o := range c.exploreX(x, l.setBal, args, nil) {
		if succeeded(x, l.setBal, o) {
			n++
			c.oblige(o.st.ev["hook1"] != nil, "observers hear of every stored change", shortFn(l.setBal), "a successful path does not call an observer with the account after the write; exit ", c.P.pos(o.pos))
		}
	}
	c.oblige(n > 0, "reachable success", shortFn(l.setBal), "none")
	x = newExec(c.P, mk(true))
	for _, o := range c.exploreX(x, l.setBal, args, nil) {
		c.oblige(o.panic || !succeeded(x, l.setBal, o), "an observer's failure is the change's failure", shortFn(l.setBal), "reports success although an observer failed; exit ", c.P.pos(o.pos))
	}
	// and the failure reaches the callers of the balance operations
	for _, nme := range []string{"AddCoins", "SubtractCoins"} {
		f := c.method(bankK, "BaseKeeper", nme)
		if f == nil {
			continue
		}
		cl := &Client{Name: "propagate", OnCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if ci.Fn == l.setBal {
				st.ev["failed"] = Bool(true)
				return true, []Outcome{{vals: []*V{rawApp("err:setbalance", ci.Site)}, st: st}}
			}
			return false, nil
		}}
		x := newExec(c.P, cl)
		for _, o := range c.exploreX(x, f, nil, nil) {
			c.oblige(o.panic || o.st.ev["failed"] == nil || !succeeded(x, f, o), "a failed balance write fails the operation", shortFn(f), "reports success; exit ", c.P.pos(o.pos))
		}
	}
	// registration: the application observes balance changes for the referral counters
	on := c.method("x/referral/keeper", "Keeper", "OnBalanceChanged")
	addHook := c.method(bankK, "BaseKeeper", "AddHook")
	if on == nil || addHook == nil {
		return
	}
	found := 0
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/app" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range c.P.callees(ci) {
					if g != addHook {
						continue
					}
					for _, a := range ci.Common().Args {
						if h := hookTarget(a); h != nil {
							if c.P.reachable(h)[on] {
								found++
							}
						}
					}
				}
			}
		}
	}
	c.oblige(found > 0, "the application registers the referral counters as an observer of balances", "app constructor", "no registration leads to ", shortFn(on))
	// AddHook stores what it is given
	fn := Sym("fn:hook")
	x = newExec(c.P, &Client{Name: "addhook"})
	for _, o := range c.exploreX(x, addHook, []*V{Sym("keeper"), Str("SetCoins"), Sym("name"), fn}, nil) {
		if o.panic {
			c.oblige(false, "observers can be registered", shortFn(addHook), "panics for the balance event")
			continue
		}
		ok := false
		for _, v := range o.st.mem {
			if v.mentions(func(y *V) bool { return y.is("mapput") && y.args[2] == fn && y.args[1] == Sym("name") }) || v.mentions(func(y *V) bool { return y.is("append") && y.mentions(func(z *V) bool { return z == fn }) }) {
				ok = true
			}
		}
		c.oblige(ok, "observers can be registered", shortFn(addHook), "the hook is not stored")
	}
}

// hookTarget resolves a function value passed as an argument.
func hookTarget(a ssa.Value) *ssa.Function {
	for {
		switch v := a.(type) {
		case *ssa.Function:
			return v
		case *ssa.MakeClosure:
			return v.Fn.(*ssa.Function)
		case *ssa.ChangeType:
			a = v.X
			continue
		case *ssa.MakeInterface:
			a = v.X
			continue
		}
		return nil
	}
}

// moduleAddr: the value is the address of the named module account.
func (P *Program) moduleAddr(v *V, name string) bool {
	v = stripIface(v)
	if !v.is("moduleaddr") {
		return false
	}
	n := stripIface(v.args[0])
	if s, ok := strOf(n); ok {
		return s == name
	}
	if n.hasOp("field:") {
		P.storeFields()
		return P.strFields[strings.TrimPrefix(n.op, "field:")] == name
	}
	return false
}

const feeCollector = "splittable_fee_collector"

// ruleSend: what a transfer does and when it is refused.
func ruleSend(c *Check) {
	l := newLedger(c)
	send := c.method(bankK, "BaseKeeper", "Send")
	if send == nil {
		return
	}
	msg := Sym("msg")
	mt := c.P.typ("x/bank/types", "MsgSend")
	from, to, amount := c.msgField(mt, msg, "FromAddress"), c.msgField(mt, msg, "ToAddress"), c.msgField(mt, msg, "Amount")
	if from == nil || to == nil || amount == nil {
		return
	}
	args := []*V{Sym("keeper"), Sym("ctx"), msg}
	run := func(hyp func(x *Exec, a *V, st *State) (bool, bool)) (*Exec, []Outcome) {
		l.hyp = hyp
		x := newExec(c.P, l.client())
		r := c.exploreX(x, send, args, nil)
		l.hyp = nil
		return x, r
	}
	// effect
	x, outs := run(nil)
	n := 0
	for _, o := range outs {
		if !succeeded(x, send, o) {
			continue
		}
		n++
		d := l.deltas(o.st)
		var fee Lin
		extra := ""
		for a, dl := range d {
			if a == from || a == to {
				continue
			}
			if c.P.moduleAddr(a, feeCollector) && fee == nil {
				fee = dl
				continue
			}
			extra += a.String() + " "
		}
		ok := extra == "" && d[to].eq(coinLin(amount)) && d[from].add(coinLin(amount), 1).add(fee, 1).zero() && o.st.ev["bad"] == nil
		c.oblige(ok, "a transfer moves exactly the amount, and the fee to the collector", shortFn(send), "success changes ", fmtDeltas(d), " ", badOf(o.st), " exit ", c.P.pos(o.pos))
	}
	c.oblige(n > 0, "reachable success", shortFn(send), "none")
	// refusals
	refuse := func(name string, hyp func(a *V) (bool, bool)) {
		hit := false
		x, outs := run(func(x *Exec, a *V, st *State) (bool, bool) {
			v, ok := hyp(a)
			hit = hit || ok
			return v, ok
		})
		bad := ""
		for _, o := range outs {
			if !o.panic && succeeded(x, send, o) {
				bad = "succeeds (exit " + c.P.pos(o.pos) + ")"
			} else if d := l.deltas(o.st); len(d) > 0 && !o.panic {
				bad = "moves coins: " + fmtDeltas(d)
				if debugFacts {
					for f, v := range o.st.facts {
						println(v, f.String())
					}
				}
			}
		}
		c.oblige(bad == "", "a transfer is refused, nothing moved: "+name, shortFn(send), bad)
	}
	eqTo := func(a *V, p, q func(*V) bool) bool {
		return a.is("eq") && (p(a.args[0]) && q(a.args[1]) || p(a.args[1]) && q(a.args[0]))
	}
	is := func(w *V) func(*V) bool { return func(v *V) bool { return stripIface(v) == w } }
	refuse("the recipient has no account", func(a *V) (bool, bool) {
		if a.is("isnil") && a.args[0].hasOp("call:invoke:") && strings.HasSuffix(a.args[0].op, ".GetAccount") && len(a.args[0].args) > 2 && stripIface(a.args[0].args[2]) == to {
			return true, true
		}
		return false, false
	})
	refuse("the recipient may not receive", func(a *V) (bool, bool) {
		if (a.is("lookup") || a.is("has")) && hasFieldNamed(a.args[0], "blockedAddrs") && stripIface(a.args[1]) == to {
			return true, true
		}
		return false, false
	})
	elem := func(v *V) bool { return v.mentions(func(y *V) bool { return y == amount }) }
	mainDenom := func(v *V) bool { s, ok := strOf(v); return ok && s == "uartr" }
	refuse("a coin is not of the main denomination", func(a *V) (bool, bool) {
		if a.is("eq") && (elem(a.args[0]) && mainDenom(a.args[1]) || elem(a.args[1]) && mainDenom(a.args[0])) {
			return false, true
		}
		if a.is("lt") && a.args[1].is("len") && a.args[1].args[0] == amount {
			if k, ok := intOf(a.args[0]); ok && k == 0 {
				return true, true
			}
		}
		return false, false
	})
	refuse("the sender is on the blocked list", func(a *V) (bool, bool) {
		inList := func(v *V) bool { return v.is("index") && hasFieldNamed(v, "BlockedSenders") }
		if eqTo(a, inList, is(from)) {
			return true, true
		}
		if a.is("lt") && a.args[1].is("len") && hasFieldNamed(a.args[1], "BlockedSenders") {
			if k, ok := intOf(a.args[0]); ok && k == 0 {
				return true, true
			}
		}
		return false, false
	})
	refuse("the amount is below the minimum", func(a *V) (bool, bool) {
		isMin := func(v *V) bool {
			v = stripIface(v)
			return v.is("coins") && len(v.args) == 1 && v.args[0].is("coin") && mainDenom(v.args[0].args[0]) &&
				v.args[0].args[1].mentions(func(y *V) bool {
					return strings.HasSuffix(y.op, "ParamStoreKeyMinSend") || strings.HasSuffix(y.op, ".MinSend")
				})
		}
		if a.hasOp("call:(github.com/cosmos/cosmos-sdk/types.Coins).IsAnyGT") && isMin(a.args[0]) && stripIface(a.args[1]) == amount {
			return true, true
		}
		if a.hasOp("call:(github.com/cosmos/cosmos-sdk/types.Coins).IsAllGTE") && isMin(a.args[1]) && stripIface(a.args[0]) == amount {
			return false, true
		}
		return false, false
	})
	for _, w := range []struct {
		v *V
		n string
	}{{from, "the sender's address is malformed"}, {to, "the recipient's address is malformed"}} {
		refuse(w.n, func(a *V) (bool, bool) {
			if a.is("isnil") && a.args[0].is("badaddr") && a.args[0].args[0] == w.v {
				return false, true
			}
			return false, false
		})
	}
	// burning: exactly the amount, from the account that asks
	burn := c.method(bankK, "BaseKeeper", "Burn")
	if burn != nil {
		bt := c.P.typ("x/bank/types", "MsgBurn")
		acc, am := c.msgField(bt, msg, "Account"), c.msgField(bt, msg, "Amount")
		x := newExec(c.P, l.client())
		n := 0
		for _, o := range c.exploreX(x, burn, args, nil) {
			if !succeeded(x, burn, o) {
				continue
			}
			n++
			want := Lin{rawApp("unitcoin", Str("uartr"), am): -1}
			d := l.deltas(o.st)
			c.oblige(len(d) == 1 && d[acc].eq(want) && linOfV(o.st.ev["sup"]).eq(want), "burning takes exactly the amount from the account and the supply", shortFn(burn), "success changes ", fmtDeltas(d), ", supply ", linOfV(o.st.ev["sup"]))
		}
		c.oblige(n > 0, "reachable success", shortFn(burn), "none")
	}
	// module-level burning: same, and failures are reported
	for _, nm := range []string{"BurnCoins", "BurnAccCoins", "MintCoins"} {
		f := c.method(bankK, "BaseKeeper", nm)
		if f == nil {
			continue
		}
		cl := l.client()
		sign := int64(-1)
		if nm == "MintCoins" {
			sign = 1
		}
		x := newExec(c.P, cl)
		fa := []*V{Sym("keeper"), Sym("ctx"), Str("somemodule"), Sym("amount")}
		if nm == "BurnAccCoins" {
			fa[2] = Sym("account")
		}
		for _, o := range c.exploreX(x, f, fa, nil) {
			if !succeeded(x, f, o) {
				continue
			}
			want := Lin{Sym("amount"): sign}
			d := l.deltas(o.st)
			ok := len(d) == 1 && linOfV(o.st.ev["sup"]).eq(want)
			for a, dl := range d {
				ok = ok && dl.eq(want) && (a == fa[2] || c.P.moduleAddr(a, "somemodule"))
			}
			c.oblige(ok, "minting and burning report success only when done", shortFn(f), "success changes ", fmtDeltas(d), ", supply ", linOfV(o.st.ev["sup"]), " (exit ", c.P.pos(o.pos), ")")
		}
	}
}

func hasFieldNamed(v *V, field string) bool {
	return v.mentions(func(y *V) bool { return y.hasOp("field:") && strings.HasSuffix(y.op, "."+field) })
}

// ruleFee: the fee of a transfer or delegation.
func ruleFee(c *Check) {
	l := newLedger(c)
	pay := c.method(bankK, "BaseKeeper", "PayTxFee")
	calc := c.fn("util", "CalculateFee")
	if pay == nil || calc == nil {
		return
	}
	from, amt := Sym("payer"), Sym("amount")
	args := []*V{Sym("keeper"), Sym("ctx"), from, amt}
	nCalc := 0
	l.extraCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
		if ci.Fn == calc {
			nCalc++
			a := []*V{}
			for _, v := range ci.Args {
				a = append(a, x.snap(st, v))
			}
			c.feeArgs(a, shortFn(pay))
			st.ev["calc:"+itoa(rawApp("site", ci.Site).id)] = rawApp("calc", a...)
		}
		return false, nil
	}
	x := newExec(c.P, l.client())
	n := 0
	for _, o := range c.exploreX(x, pay, args, nil) {
		if !succeeded(x, pay, o) {
			continue
		}
		n++
		d := l.deltas(o.st)
		fee := coinLin(x.snap(o.st, o.vals[0]))
		nc := 0
		for k := range o.st.ev {
			if strings.HasPrefix(k, "calc:") {
				nc++
			}
		}
		if v, ok := x.eval(o.st, App("lt", Int(int64(nc)), App("len", amt))); !ok || v {
			z, ok := o.st.facts[rawApp("coinszero", amt)]
			c.oblige(ok && z, "a fee is calculated for every coin of the amount", shortFn(pay), "success with ", nc, " coins looked at (exit ", c.P.pos(o.pos), ")")
		}
		c.oblige(len(fee) == nc, "every fee calculated is due", shortFn(pay), nc, " calculated, returns ", fee, " (exit ", c.P.pos(o.pos), ")")
		if z, ok := o.st.facts[rawApp("coinszero", x.snap(o.st, o.vals[0]))]; ok && z {
			c.oblige(len(d) == 0, "no fee, no change", shortFn(pay), fmtDeltas(d))
			continue
		}
		if fee.zero() {
			c.oblige(len(d) == 0, "no fee, no change", shortFn(pay), fmtDeltas(d))
			continue
		}
		ok := len(d) == 2 && d[from].add(fee, 1).zero()
		for a, dl := range d {
			if a != from {
				ok = ok && c.P.moduleAddr(a, feeCollector) && dl.eq(fee)
			}
		}
		c.oblige(ok, "the fee returned is taken from the payer and given to the fee collector", shortFn(pay), "returns fee ", fee, " having changed ", fmtDeltas(d), " (exit ", c.P.pos(o.pos), ")")
		for t := range fee {
			calcd := t.is("unitcoin") && t.args[1].hasOp("call:util.CalculateFee") && t.args[0].mentions(func(y *V) bool { return y == amt }) &&
				t.args[1].args[0].mentions(func(y *V) bool { return y == amt })
			c.oblige(calcd, "the fee is the calculated fee of the amount, in its denomination", shortFn(pay), "charges ", t)
		}
	}
	c.oblige(n > 0 && nCalc > 0, "reachable success", shortFn(pay), "fee calculation not reached")
	l.extraCall = nil
	// users
	for _, u := range []struct{ rel, typ, name string }{{bankK, "BaseKeeper", "Send"}, {"x/delegating/keeper", "Keeper", "Delegate"}} {
		f := c.method(u.rel, u.typ, u.name)
		if f == nil {
			continue
		}
		cl := &Client{Name: "fee-first", Inline: func(f *ssa.Function) bool { return l.reach[f] }, OnCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			switch ci.Fn {
			case pay:
				ok := rawApp("call:PayTxFee", ci.Site)
				s2 := st.clone()
				s2.ev["paid"] = Bool(true)
				return true, []Outcome{{vals: []*V{ok, vNil}, st: s2}, {vals: []*V{ok, rawApp("err:fee", ci.Site)}, st: st}}
			case l.setBal:
				c.oblige(st.ev["paid"] != nil, "the fee is collected before coins move", shortFn(f), "a balance changes although the fee was not collected; at ", posOf(c.P, ci.Instr))
				return true, []Outcome{{vals: []*V{vNil}, st: st}}
			}
			return false, nil
		}}
		x := newExec(c.P, cl)
		for _, o := range c.exploreX(x, f, nil, nil) {
			if succeeded(x, f, o) {
				c.oblige(o.st.ev["paid"] != nil, "no success without the fee", shortFn(f), "exit ", c.P.pos(o.pos))
			}
		}
	}
	ruleFeeSplit(c, l)
	c.feeMath()
}

// feeArgs: the arguments of a fee calculation are the right parameters in the right places.
func (c *Check) feeArgs(a []*V, where string) {
	want := []string{"", "TransactionFee", "MaxTransactionFee", "ForProposer", "ForCompany"}
	for i := 1; i < 5 && i < len(a); i++ {
		ok := a[i].hasOp("field:") && strings.HasSuffix(a[i].op, "."+want[i])
		c.oblige(ok, "the fee is calculated from the parameters meant for it", where+" argument "+want[i], "got ", a[i])
	}
}

// ruleFeeSplit: the collected fees are handed on completely: the proposer's share to the proposer, the company's share to
// the company account, the rest out of existence.
func ruleFeeSplit(c *Check, l *Ledger) {
	pr := c.method("x/noding/keeper", "Keeper", "PayProposerReward")
	split := c.fn("util", "SplitFee")
	if pr == nil || split == nil {
		return
	}
	nSplit := 0
	l.extraCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
		if ci.Fn == split {
			nSplit++
			want := []string{"", "ForProposer", "ForCompany"}
			for i := 1; i < 3; i++ {
				a := x.snap(st, ci.Args[i])
				c.oblige(a.hasOp("field:") && strings.HasSuffix(a.op, "."+want[i]), "the fee is split by the parameters meant for it", shortFn(pr)+" argument "+want[i], "got ", a)
			}
		}
		return false, nil
	}
	defer func() { l.extraCall = nil }()
	acc := Sym("proposer")
	x := newExec(c.P, l.client())
	x.C.Limit, x.C.OutLimit = 5000, 5000
	n, full := 0, 0
	part := func(i int) func(*V) bool {
		return func(t *V) bool { return t.hasOp("call:util.SplitFee#" + itoa(i)) }
	}
	for _, o := range c.exploreX(x, pr, []*V{Sym("keeper"), Sym("ctx"), acc}, nil) {
		if !succeeded(x, pr, o) {
			continue
		}
		n++
		where := " (exit " + c.P.pos(o.pos) + ")"
		c.oblige(o.st.ev["bad"] == nil, "the books stay consistent", shortFn(pr), badOf(o.st))
		burned := Lin{}.add(linOfV(o.st.ev["sup"]), -1)
		var coll Lin
		var bal *V
		d := l.deltas(o.st)
		for a, dl := range d {
			switch {
			case a == acc:
				// all of the plain fee collector, and the proposer's part or what is left
				for t, k := range dl {
					plain := t.is("Bal") && c.P.moduleAddr(t.args[0], "fee_collector")
					ok := k == 1 && (plain || t.is("unitcoin") && (part(0)(t.args[1]) || t.args[1].is("amountof")))
					c.oblige(ok, "the proposer receives the proposer's share", shortFn(pr), "receives ", dl, where)
				}
			case c.P.moduleAddr(a, feeCollector):
				coll = dl
			case c.P.moduleAddr(a, "fee_collector"):
				ok := len(dl) == 1
				for t, k := range dl {
					ok = ok && k == -1 && t.is("Bal") && t.args[0] == a
				}
				c.oblige(ok, "plain fees are handed on completely", shortFn(pr), dl, where)
			case fieldOf(a, "bank/types.Params", "CompanyAccount"):
				for t, k := range dl {
					first := t.is("unitcoin") && (part(1)(t.args[1]) || t.args[1].is("amountof") || t.args[1].is("bin:-") || part(0)(t.args[1]))
					c.oblige(first && (k == 1 || k == -1), "the company receives the company's share", shortFn(pr), "receives ", dl, where)
				}
			default:
				c.oblige(false, "fees go to the proposer, the company or nobody", shortFn(pr), a, " receives ", dl, where)
			}
		}
		for t := range burned.add(coll, 1) {
			for _, y := range []*V{t} {
				if y.is("unitcoin") {
					y.args[1].mentions(func(z *V) bool {
						if z.is("amountof") && z.args[0].is("Bal") && c.P.moduleAddr(z.args[0].args[0], feeCollector) {
							bal = z
						}
						return false
					})
				}
			}
		}
		if coll == nil {
			// nothing moved: every part must be known to be nothing
			continue
		}
		// what leaves the collector is all that was in it
		if bal == nil {
			for f := range o.st.facts {
				f.mentions(func(z *V) bool {
					if z.is("amountof") && z.args[0].is("Bal") && c.P.moduleAddr(z.args[0].args[0], feeCollector) {
						bal = z
					}
					return false
				})
			}
		}
		if bal == nil {
			c.oblige(false, "the collector's balance is what is split", shortFn(pr), "its balance is not read", where)
			continue
		}
		full++
		left := coll.add(Lin{rawApp("unitcoin", Str("uartr"), bal): 1}, 1)
		if os.Getenv("CHECKER_DEBUG") != "" && !balancedWith(left, o.st) {
			for f, v := range o.st.facts {
				if f.is("eq") || f.is("lt") {
					fmt.Println("   ", v, f)
				}
			}
		}
		c.oblige(balancedWith(left, o.st), "collected fees are handed on completely", shortFn(pr), "left in the collector: ", left, where)
	}
	c.oblige(n > 0 && nSplit > 0 && full > 0, "reachable success", shortFn(pr), "none")
}

var debugFacts = os.Getenv("DEBUG_FACTS") != ""
