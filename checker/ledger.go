package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Linear forms over opaque terms with integer coefficients.
type Lin map[*V]int64

func (l Lin) add(m Lin, k int64) Lin {
	n := Lin{}
	for t, c := range l {
		n[t] = c
	}
	for t, c := range m {
		n[t] += c * k
		if n[t] == 0 {
			delete(n, t)
		}
	}
	return n
}

func (l Lin) zero() bool { return len(l) == 0 }

func (l Lin) eq(m Lin) bool { return l.add(m, -1).zero() }

func (l Lin) String() string {
	if len(l) == 0 {
		return "0"
	}
	s := []string{}
	for t, c := range l {
		s = append(s, Int(c).String()+"*"+t.String())
	}
	sort.Strings(s)
	return strings.Join(s, " + ")
}

func (l Lin) V() *V {
	ks := []*V{}
	for t := range l {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	args := []*V{}
	for _, k := range ks {
		args = append(args, k, Int(l[k]))
	}
	return rawApp("lin", args...)
}

func linOfV(v *V) Lin {
	l := Lin{}
	if v == nil {
		return l
	}
	for i := 0; i+1 < len(v.args); i += 2 {
		n, _ := intOf(v.args[i+1])
		l[v.args[i]] = n
	}
	return l
}

var unit = Sym("1")

// numLin is the linear form of an integer value.
func numLin(v *V) Lin {
	v = stripIface(v)
	if n, ok := intOf(v); ok {
		if n == 0 {
			return Lin{}
		}
		return Lin{unit: n}
	}
	switch {
	case v.is("bin:+"):
		return numLin(v.args[0]).add(numLin(v.args[1]), 1)
	case v.is("bin:-"):
		return numLin(v.args[0]).add(numLin(v.args[1]), -1)
	case v.is("neg"):
		return Lin{}.add(numLin(v.args[0]), -1)
	case v.is("bin:*"):
		if n, ok := intOf(v.args[1]); ok {
			return Lin{}.add(numLin(v.args[0]), n)
		}
		if n, ok := intOf(v.args[0]); ok {
			return Lin{}.add(numLin(v.args[1]), n)
		}
	case v.is("amountof"):
		// the amount of one denomination in a sum of coins
		l := Lin{}
		cl := coinLin(v.args[0])
		for t, c := range cl {
			if t.is("unitcoin") {
				if t.args[0] == v.args[1] {
					l = l.add(Lin{t.args[1]: 1}, c)
				} else if t.args[0].k == KConst && v.args[1].k == KConst {
					continue
				} else {
					l = l.add(Lin{rawApp("amountof", t, v.args[1]): 1}, c)
				}
			} else {
				l = l.add(Lin{rawApp("amountof", t, v.args[1]): 1}, c)
			}
		}
		return l
	}
	return Lin{v: 1}
}

// coinLin is the linear form of a coins value: a sum of opaque coin sets and of single-denomination terms.
func coinLin(v *V) Lin {
	v = stripIface(v)
	switch {
	case v.k == KNil, v.k == KZero, v.is("emptycoins"):
		return Lin{}
	case v.is("coins"), v.k == KList:
		l := Lin{}
		for _, c := range v.args {
			l = l.add(oneCoin(c), 1)
		}
		return l
	case v.is("coins+"):
		return coinLin(v.args[0]).add(coinLin(v.args[1]), 1)
	case v.is("coins-"):
		return coinLin(v.args[0]).add(coinLin(v.args[1]), -1)
	case v.is("coin"):
		return oneCoin(v)
	}
	return Lin{v: 1}
}

func oneCoin(c *V) Lin {
	c = stripIface(c)
	var d, n *V
	if c.is("coin") {
		d, n = c.args[0], c.args[1]
	} else if c.k == KStruct && c.args[0].k == KZero && strings.HasSuffix(typeName(c.args[0].t), "types.Coin") {
		for i := 1; i+1 < len(c.args); i += 2 {
			switch fieldName(c.args[i]) {
			case "Denom":
				d = c.args[i+1]
			case "Amount":
				n = c.args[i+1]
			}
		}
	}
	if d == nil || n == nil {
		return Lin{rawApp("onecoin", c): 1}
	}
	l := Lin{}
	for t, k := range numLin(n) {
		l = l.add(Lin{rawApp("unitcoin", d, t): 1}, k)
	}
	return l
}

// Ledger is the client that keeps the books of a run: how each address's balance and the total supply have changed.
type Ledger struct {
	c                              *Check
	setBal, getBal, setSup, getSup *ssa.Function
	reach                          map[*ssa.Function]bool
	extraCall                      func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome)
	extraInline                    func(f *ssa.Function) bool
	hyp                            func(x *Exec, atom *V, st *State) (bool, bool)
	unroll                         int
}

func newLedger(c *Check) *Ledger {
	const bk = "x/bank/internal/keeper"
	l := &Ledger{c: c, unroll: 2}
	l.setBal = c.method(bk, "BaseKeeper", "SetBalance")
	l.getBal = c.method(bk, "BaseKeeper", "GetBalance")
	l.setSup = c.method(bk, "BaseKeeper", "SetSupply")
	l.getSup = c.method(bk, "BaseKeeper", "GetSupply")
	if l.setBal == nil || l.getBal == nil || l.setSup == nil || l.getSup == nil {
		panic("bank primitives not found")
	}
	l.reach = c.P.reaching(map[*ssa.Function]bool{l.setBal: true, l.getBal: true, l.setSup: true, l.getSup: true})
	return l
}

func (l *Ledger) client() *Client {
	return &Client{Name: "ledger", Unroll: l.unroll, Cut: true, Limit: 200, OutLimit: 60,
		Inline: func(f *ssa.Function) bool {
			if l.extraInline != nil && l.extraInline(f) {
				return true
			}
			if p := fnPkgPath(f); strings.HasPrefix(p, modPath+"/x/bank") || p == modPath+"/util" {
				return true
			}
			return l.reach[f]
		},
		Hyp: l.hyp,
		OnCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if l.extraCall != nil {
				if ok, o := l.extraCall(x, ci, st); ok {
					return ok, o
				}
			}
			switch ci.Fn {
			case nil:
				return false, nil
			case l.getBal:
				a := x.snap(st, ci.Args[2])
				k := "fresh:" + itoa(a.id)
				v := st.ev[k]
				if v == nil {
					v = rawApp("Bal", a, ci.Site)
					st.ev[k] = v
				}
				return true, []Outcome{{vals: []*V{v}, st: st}}
			case l.setBal:
				a := x.snap(st, ci.Args[2])
				val := x.snap(st, ci.Args[3])
				lv := coinLin(val)
				fr := st.ev["fresh:"+itoa(a.id)]
				s2 := st.clone()
				if fr == nil || !startsFrom(val, fr) {
					s2.ev["bad"] = rawApp("badwrite", a, val)
				}
				d := lv
				if fr != nil {
					d = lv.add(Lin{fr: 1}, -1)
				}
				for t := range d {
					if t.is("Bal") && t.args[0] == a && t != fr {
						s2.ev["bad"] = rawApp("badwrite", a, val)
					}
				}
				for k := range s2.ev {
					if strings.HasPrefix(k, "fresh:") {
						delete(s2.ev, k)
					}
				}
				setLin(s2, "net", linOfV(s2.ev["net"]).add(d, 1))
				dk := "d:" + itoa(a.id)
				setLin(s2, dk, linOfV(s2.ev[dk]).add(d, 1))
				if s2.ev[dk] != nil {
					s2.ev["addr:"+itoa(a.id)] = a
				}
				e := rawApp("call:SetBalance", a, val, ci.Site)
				s2.facts[mkIsNil(e)] = true
				st.facts[mkIsNil(e)] = false
				return true, []Outcome{{vals: []*V{e}, st: s2}, {vals: []*V{e}, st: st}}
			case l.getSup:
				v := st.ev["freshsup"]
				if v == nil {
					v = rawApp("Supply", ci.Site)
					st.ev["freshsup"] = v
				}
				return true, []Outcome{{vals: []*V{v}, st: st}}
			case l.setSup:
				val := x.snap(st, ci.Args[2])
				t := l.total(val)
				fr := st.ev["freshsup"]
				if fr == nil || t == nil {
					st.ev["bad"] = rawApp("badsupply", val)
					return true, []Outcome{{st: st}}
				}
				lv := coinLin(t)
				ft := l.total(fr)
				if lv[ft] != 1 {
					st.ev["bad"] = rawApp("badsupply", val)
				}
				d := lv.add(Lin{ft: 1}, -1)
				for t := range d {
					if t.mentions(func(y *V) bool { return y.is("Supply") }) {
						st.ev["bad"] = rawApp("badsupply", val)
					}
				}
				delete(st.ev, "freshsup")
				setLin(st, "sup", linOfV(st.ev["sup"]).add(d, 1))
				return true, []Outcome{{st: st}}
			}
			return false, nil
		},
	}
}

func setLin(st *State, k string, l Lin) {
	if l.zero() {
		delete(st.ev, k)
		return
	}
	st.ev[k] = l.V()
}

func (l *Ledger) total(s *V) *V {
	t := l.c.P.typ("x/bank/types", "Supply")
	if t == nil {
		return nil
	}
	str := t.Underlying().(*types.Struct)
	for i := 0; i < str.NumFields(); i++ {
		if str.Field(i).Name() == "Total" {
			return project(s, FieldSel(t, i))
		}
	}
	return nil
}

// deltas lists the balance changes of an outcome by address.
func (l *Ledger) deltas(st *State) map[*V]Lin {
	r := map[*V]Lin{}
	for k, v := range st.ev {
		if strings.HasPrefix(k, "d:") {
			a := st.ev["addr:"+k[2:]]
			if a != nil {
				r[a] = linOfV(v)
			}
		}
	}
	return r
}

// equalFacts are the linear equalities established by branches (IsEqual and == on coin sets and integers).
func equalFacts(st *State) []Lin {
	r := []Lin{}
	for f, v := range st.facts {
		if v && f.hasOp("call:(github.com/cosmos/cosmos-sdk/types.Coins).IsEqual") && len(f.args) >= 2 {
			r = append(r, coinLin(f.args[0]).add(coinLin(f.args[1]), -1))
		}
		if f.is("lt") && !v {
			// neither less nor greater
			if o, ok := st.facts[rawApp("lt", f.args[1], f.args[0])]; ok && !o {
				r = append(r, numLin(f.args[0]).add(numLin(f.args[1]), -1))
			}
			continue
		}
		if !v {
			continue
		}
		if f.is("eq") {
			r = append(r, numLin(f.args[0]).add(numLin(f.args[1]), -1))
		}
	}
	return r
}

// balancedWith: the difference is zero, given the equalities established on the path (linear elimination).
func balancedWith(diff Lin, st *State) bool {
	if diff.zero() {
		return true
	}
	// amounts of one denomination are compared as numbers
	num := func(l Lin) (Lin, *V, bool) {
		var den *V
		n := Lin{}
		for t, c := range l {
			if !t.is("unitcoin") || den != nil && t.args[0] != den {
				return nil, nil, false
			}
			den = t.args[0]
			n = n.add(numLin(t.args[1]), c)
		}
		return n, den, true
	}
	rows := equalFacts(st)
	for f, v := range st.facts {
		if v && f.is("coinszero") {
			rows = append(rows, coinLin(f.args[0]))
		}
	}
	if n, _, ok := num(diff); ok {
		diff = n
		for i, r := range rows {
			if m, _, ok := num(r); ok {
				rows[i] = m
			}
		}
	}
	for i := 0; i < len(rows); i++ {
		p := (*V)(nil)
		for t, c := range rows[i] {
			if (c == 1 || c == -1) && (p == nil || t.id < p.id) {
				p = t
			}
		}
		if p == nil {
			continue
		}
		k := rows[i][p]
		for j := range rows {
			if j != i && rows[j][p] != 0 {
				rows[j] = rows[j].add(rows[i], -rows[j][p]*k)
			}
		}
		if diff[p] != 0 {
			diff = diff.add(rows[i], -diff[p]*k)
		}
	}
	return diff.zero()
}

func itoa(n int) string { return Int(int64(n)).String() }

// startsFrom: the coins value is the base plus and minus amounts.
func startsFrom(v, base *V) bool {
	v = stripIface(v)
	if v == base {
		return true
	}
	if v.is("coins-") {
		return startsFrom(v.args[0], base)
	}
	if v.is("coins+") {
		return startsFrom(v.args[0], base) || startsFrom(v.args[1], base)
	}
	return false
}
