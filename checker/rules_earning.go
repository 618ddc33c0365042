package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// timeLin is the linear form of an instant or a duration: instants are terms, t.Add(d) = t + d, t.Sub(u) = t - u.
func timeLin(v *V) lin {
	v = stripIface(v)
	switch {
	case v.is("deref") && len(v.args) == 1:
		return timeLin(v.args[0])
	case v.is("call:(time.Time).Add") && len(v.args) == 2:
		return timeLin(v.args[0]).plus(timeLin(v.args[1]), 1)
	case v.is("call:(time.Time).Sub") && len(v.args) == 2:
		return timeLin(v.args[0]).plus(timeLin(v.args[1]), -1)
	case v.is("bin:+") && len(v.args) == 2:
		return timeLin(v.args[0]).plus(timeLin(v.args[1]), 1)
	case v.is("bin:-") && len(v.args) == 2:
		return timeLin(v.args[0]).plus(timeLin(v.args[1]), -1)
	case v.is("bin:*") && len(v.args) == 2:
		for i := 0; i < 2; i++ {
			if n, ok := intOf(v.args[i]); ok {
				return lin{}.plus(timeLin(v.args[1-i]), n)
			}
		}
	}
	return linOf(v)
}

// isMoment: the linear form is coef·(mark + n·unit − now); unit is the method that gives it.
func isMoment(l lin, mark *V, n int64, unit string) (int64, bool) {
	if len(l) != 3 || l[mark] == 0 {
		return 0, false
	}
	k := l[mark]
	for t, c := range l {
		switch {
		case t == mark:
		case t != nil && t.op == "blocktime" && c == -k:
		case t != nil && strings.HasSuffix(t.op, "."+unit) && c == n*k:
		default:
			return 0, false
		}
	}
	return k, true
}

// lenIs decides comparisons of the length of a list that has n elements.
func lenIs(a, list *V, n int64) (bool, bool) {
	if list == nil || len(a.args) != 2 || !a.is("lt") && !a.is("eq") {
		return false, false
	}
	var x [2]int64
	found := false
	for i, t := range a.args {
		if v, ok := intOf(t); ok {
			x[i] = v
		} else if t.is("len") && t.args[0] == list {
			x[i], found = n, true
		} else {
			return false, false
		}
	}
	if !found {
		return false, false
	}
	if a.is("lt") {
		return x[0] < x[1], true
	}
	return x[0] == x[1], true
}

func ruleEarning(c *Check) {
	const (
		kAuth  = "only a listed signer sets the marks of earners"
		kSets  = "the marks of every earner of a message are set as given, or removed when there are none"
		kWho   = "marks are written by signers' messages, by expiry and by genesis only"
		kFlags = "an account is an active earner for two days from the mark"
		kClean = "an expired mark is dropped, the other is kept"
		kOne   = "each account has its own marks"
	)
	get := c.method("x/earning/keeper", "Keeper", "IsActiveEarner")
	pt := c.P.typ("x/earning/types", "Params")
	tt := c.P.typ("x/earning/types", "Timestamps")
	et := c.P.typ("x/earning/types", "Earner")
	if get == nil || !c.oblige(pt != nil && tt != nil && et != nil, "anchor", "x/earning/types") {
		return
	}
	allowed := map[*ssa.Function]bool{get: true}
	// the messages
	for _, mm := range c.P.msgMethods() {
		if mm.Module != "earning" || mm.Msg == nil {
			continue
		}
		id := "earning." + mm.Name
		allowed[mm.Fn] = true
		m := Sym("msg")
		signer := c.msgField(mm.Msg, m, "Signer")
		one := isFieldOf(mm.Msg, "Earner")
		args := []*V{Sym("srv"), Sym("ctx"), m}
		isAuth := func(a *V) bool {
			if !mention(a, signer) {
				return false
			}
			if a.is("eq") && (a.args[0] == signer || a.args[1] == signer) {
				o := a.args[0]
				if o == signer {
					o = a.args[1]
				}
				return strings.Contains(o.String(), "Signers")
			}
			return a.hasOp("call:") && strings.Contains(a.String(), "Signers")
		}
		n, bad := 0, ""
		for _, p := range c.paths(mm.Fn, args, pathOpts{hyp: func(x *Exec, a *V, st *State) (bool, bool) {
			if v, ok := wellCoded(x, a, st); ok {
				return v, ok
			}
			if isAuth(a) {
				return false, true
			}
			return false, false
		}}) {
			if p.O.panic {
				continue
			}
			n++
			if p.Ok || p.has(func(e Ev) bool { return e.Kind == "Set" || e.Kind == "Delete" }) {
				bad = p.exit(c)
			}
		}
		c.oblige(n > 0 && bad == "", kAuth, id, bad)
		var list *V
		if !one {
			list = c.msgField(mm.Msg, m, "Earners")
		}
		// what is set
		for vpn := 0; vpn < 2; vpn++ {
			for sto := 0; sto < 2; sto++ {
				n, bad := 0, ""
				for _, p := range c.paths(mm.Fn, args, pathOpts{unroll: 3, hyp: func(x *Exec, a *V, st *State) (bool, bool) {
					if v, ok := wellCoded(x, a, st); ok {
						return v, ok
					}
					if v, ok := lenIs(a, list, 2); ok {
						return v, ok
					}
					if a.is("isnil") {
						s := a.args[0].String()
						if strings.HasSuffix(s, ".Vpn") {
							return vpn == 0, true
						}
						if strings.HasSuffix(s, ".Storage") {
							return sto == 0, true
						}
					}
					return false, false
				}}) {
					if p.O.panic || !p.Ok {
						continue
					}
					n++
					var got []Ev
					for _, e := range p.Ev {
						if e.Kind == "Set" || e.Kind == "Delete" {
							got = append(got, e)
						}
					}
					var want []*V
					if one {
						want = []*V{c.msgField(mm.Msg, m, "Earner")}
					} else {
						want = make([]*V, 2)
						for i := range want {
							if i >= len(got) {
								break
							}
							got[i].Args[0].mentions(func(t *V) bool {
								if t.is("index") && t.args[0] == list {
									if n, ok := intOf(t.args[1]); ok && int(n) == i {
										want[i] = t
									}
								}
								return false
							})
						}
					}
					if len(got) != len(want) {
						bad = fmt.Sprintf("%d writes", len(got))
						continue
					}
					for i, e := range got {
						w := want[i]
						if w == nil || e.Store != "earning" || unbytes(e.Args[0]) != fieldVal(w, et, "Account") {
							bad = "another account: " + e.Args[0].String()
							continue
						}
						if (vpn+sto == 0) != (e.Kind == "Delete") {
							bad = e.Kind
							continue
						}
						if e.Kind == "Set" {
							v := e.Args[1]
							if !v.is("encode") || fieldVal(v.args[0], tt, "Vpn") != fieldVal(w, et, "Vpn") || fieldVal(v.args[0], tt, "Storage") != fieldVal(w, et, "Storage") {
								bad = v.String()
							}
						}
					}
				}
				c.oblige(n > 0 && bad == "", kSets, fmt.Sprint(id, " vpn=", vpn, " storage=", sto), n, " ", bad)
			}
		}
	}
	// what is read
	acc := Sym("acc")
	for st := 0; st < 17; st++ { // each mark: none, fresh, just two days old, older; 16: no record
		vs, ss := st%4, st/4%4
		n, bad := 0, ""
		for _, p := range c.paths(get, []*V{Sym("k"), Sym("ctx"), acc}, pathOpts{hyp: func(x *Exec, a *V, s *State) (bool, bool) {
			if v, ok := wellCoded(x, a, s); ok {
				return v, ok
			}
			if has, ok := presence(a); ok {
				return has == (st < 16), true
			}
			mark := func(v *V) int {
				if t := v.String(); strings.HasSuffix(t, ".Vpn") {
					return vs
				} else if strings.HasSuffix(t, ".Storage") {
					return ss
				}
				return -1
			}
			if a.is("isnil") {
				if m := mark(a.args[0]); m >= 0 {
					return m == 0, true
				}
			}
			if a.is("lt") || a.is("eq") {
				d := timeLin(a.args[1]).plus(timeLin(a.args[0]), -1)
				for t := range d {
					if t == nil || mark(t) < 0 {
						continue
					}
					if k, ok := isMoment(d, t, 2, "OneDay"); ok {
						sign := int64(2-mark(t)) * k // 1: fresh, 2: exactly, 3: older
						if a.is("eq") {
							return sign == 0, true
						}
						return sign > 0, true
					}
				}
			}
			return false, false
		}}) {
			if p.O.panic || !p.Ok {
				continue
			}
			n++
			vpn, sto := st < 16 && vs == 1, st < 16 && ss == 1
			if len(p.O.vals) != 3 || p.O.vals[0] != Bool(vpn) || p.O.vals[1] != Bool(sto) {
				bad = fmt.Sprint(p.O.vals, " ", p.exit(c))
			}
			var last *Ev // what becomes of the record
			for i, e := range p.Ev {
				if e.Kind == "Set" || e.Kind == "Delete" {
					last = &p.Ev[i]
					if e.Store != "earning" || unbytes(e.Args[0]) != acc {
						c.oblige(false, kOne, shortFn(get), e.Store, " ", e.Args[0])
					}
				}
			}
			what := fmt.Sprintf("record %v vpn %d storage %d", st < 16, vs, ss)
			switch {
			case st == 16:
				c.oblige(last == nil || last.Kind == "Delete", kClean, what, p.exit(c))
			case !vpn && !sto:
				c.oblige(last != nil && last.Kind == "Delete", kClean, what, p.exit(c))
			case last == nil:
				c.oblige(vs < 2 && ss < 2, kClean, what, "not dropped ", p.exit(c))
			default:
				good := last.Kind == "Set" && last.Args[1].is("encode")
				if good {
					v := last.Args[1].args[0]
					good = (fieldVal(v, tt, "Vpn") != vNil) == vpn && (fieldVal(v, tt, "Storage") != vNil) == sto
					for _, f := range []string{"Vpn", "Storage"} {
						w := fieldVal(v, tt, f)
						good = good && (isNilV(w) || mention(w, acc) && strings.HasSuffix(w.String(), "."+f))
					}
				}
				c.oblige(good, kClean, what, last.Args, " ", p.exit(c))
			}
		}
		c.oblige(n > 0 && bad == "", kFlags, fmt.Sprintf("record %v vpn %d storage %d", st < 16, vs, ss), n, " ", bad)
	}
	for _, name := range []string{"SetEarners"} {
		if f := c.method("x/earning/keeper", "Keeper", name); f != nil {
			allowed[f] = true
		}
	}
	nw := 0
	for _, o := range c.P.storeOps() {
		if o.Store["earning"] && (o.Op == "Set" || o.Op == "Delete") && !isAppPkg(o.Fn) {
			nw++
			ok, via := c.P.confined(o.Fn, allowed)
			why := ""
			if via != nil {
				why = shortFn(via)
			}
			c.oblige(ok, kWho, shortFn(o.Fn), why)
		}
	}
	c.oblige(nw > 0, "anchor", "x/earning store")
}

// presence: the atom asks whether there is a record under a key.
func presence(a *V) (has bool, ok bool) {
	if a.hasOp("call:") && strings.HasSuffix(a.op, "KVStore.Has") {
		return true, true
	}
	if a.is("isnil") && isGetCall(stripIface(a.args[0])) {
		return false, true
	}
	if a.is("eq") {
		for i := 0; i < 2; i++ {
			if n, k := intOf(a.args[i]); k && n == 0 && a.args[1-i].is("len") && isGetCall(stripIface(a.args[1-i].args[0])) {
				return false, true
			}
		}
	}
	return false, false
}

func init() { register("E01", ruleEarning) }

func isFieldOf(t types.Type, name string) bool {
	s, ok := t.Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}
