package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P02", rulePurchases)
}

const gbSize = 1 << 30

// param is a parameter of the module.
func (m *proMachine) param(n string) poly {
	pt := m.c.P.typeOf(proT, "Params")
	if pt == nil {
		return polyVar(Sym("?" + n))
	}
	return polyVar(fieldVal(Sym("params"), pt, n))
}

// charge is what an operation takes from the account: the fee of the transaction and the rest for the company.
func (m *proMachine) charge(p *Path) (amount poly, why string) {
	var fee, send Ev
	n := 0
	for _, e := range p.Ev {
		if e.Kind != "call" || e.Fn == nil || !strings.HasPrefix(fnPkgPath(e.Fn), modPath+"/"+bankK) {
			continue
		}
		n++
		switch e.Fn.Name() {
		case "PayTxFee":
			fee = e
		case "SendCoins":
			send = e
		}
	}
	if n == 0 {
		return nil, ""
	}
	if n != 2 || fee.Fn == nil || send.Fn == nil {
		return nil, fmt.Sprint(n, " bank operations")
	}
	if fee.Args[2] != proAcc || send.Args[2] != proAcc {
		return nil, "paid by " + fee.Args[2].str(3) + " and " + send.Args[2].str(3)
	}
	if !m.company(send.Args[3]) {
		return nil, "paid to " + send.Args[3].str(5)
	}
	amount = coinPoly(fee.Args[3], "uartr")
	if amount == nil {
		return nil, "coins " + fee.Args[3].str(5)
	}
	rest := coinLin(send.Args[4]).add(coinLin(fee.Args[3]), -1)
	if len(rest) != 1 {
		return nil, "what is sent and the fee do not make up the price"
	}
	for t, k := range rest {
		if k != -1 || !t.mentions(func(y *V) bool { return strings.Contains(y.op, ").PayTxFee") }) {
			return nil, "what is sent and the fee do not make up the price: " + t.str(5)
		}
	}
	return amount, ""
}

// company: the account which subscriptions are paid to.
func (m *proMachine) company(v *V) bool {
	rt := m.c.P.typeOf("x/referral/types", "Params")
	if rt == nil {
		return false
	}
	ca := fieldVal(Sym("refparams"), rt, "CompanyAccounts")
	return stripIface(v) == fieldVal(ca, fieldType(rt, "CompanyAccounts"), "ForSubscription")
}

// timeDiff is the difference of two times, as a number.
func timeDiff(a, b *V) poly { return polyVar(rawApp("call:(time.Time).Sub", a, b)) }

// paramNamed is the name of the parameter of the type.
func paramNamed(f *ssa.Function, is func(t types.Type) bool) *V {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if is(f.Signature.Params().At(i).Type()) {
			return Sym("arg" + itoa(i))
		}
	}
	return nil
}

func isBasic(k types.BasicKind) func(t types.Type) bool {
	return func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == k }
}

// rulePurchases: what a user pays for is exactly what it gets.
func rulePurchases(c *Check) {
	m := c.proMachine()
	if m == nil {
		return
	}
	rate, gbp, vpnp, base := m.param("TokenRate"), m.param("StorageGbPrice"), m.param("VpnGbPrice"), m.param("BaseStorageGb").mul(polyInt(gbSize))
	month := polyVar(Sym("month"))
	bt := rawApp("blocktime")
	bad := map[string]string{}
	ok := map[string]int{}
	note := func(k, what string, why ...interface{}) {
		if bad[k] == "" {
			bad[k] = what + ": " + fmt.Sprint(why...)
		}
	}
	const kPrice, kGot, kInactive, kFree = "the price is paid, for the fee and to the company", "what has been paid for is granted", "only for an active subscription", "nothing is sold for nothing"
	type op struct {
		name   string
		active bool // an active subscription is needed
		price  func(rec *V, n proCase, gb poly) poly
		grant  string
		got    func(p *Path, rec *V, n proCase, gb poly) []poly
		until  func(n proCase) string
		skip   func(n proCase) bool
	}
	fld := func(rec *V, n string) poly { return polyOf(m.field(rec, n)) }
	imPart := func(n proCase) poly {
		if n.im == 2 {
			return timeDiff(m.imUntil, bt).mul(month.inv())
		}
		return polyInt(1)
	}
	ops := []op{
		{name: "BuyStorage", active: true, grant: "StorageLimit", price: func(rec *V, n proCase, gb poly) poly {
			return rate.mul(gb).mul(gbp).mul(timeDiff(m.until, bt)).mul(month.inv())
		}, got: func(p *Path, rec *V, n proCase, gb poly) []poly {
			lim := fld(rec, "StorageLimit")
			lo, hi := p.sign(lim.add(base, -1))
			r := []poly{}
			if hi <= 0 {
				r = append(r, base.add(gb.mul(polyInt(gbSize)), 1))
			}
			if lo >= 0 {
				r = append(r, lim.add(gb.mul(polyInt(gbSize)), 1))
			}
			return r
		}},
		{name: "BuyVpn", active: true, grant: "VpnLimit", price: func(rec *V, n proCase, gb poly) poly { return rate.mul(gb).mul(vpnp) },
			got: func(p *Path, rec *V, n proCase, gb poly) []poly {
				return []poly{fld(rec, "VpnLimit").add(gb.mul(polyInt(gbSize)), 1)}
			}},
		{name: "BuyImStorage", grant: "ImLimitExtra", price: func(rec *V, n proCase, gb poly) poly { return rate.mul(gb).mul(gbp).mul(imPart(n)) },
			got: func(p *Path, rec *V, n proCase, gb poly) []poly {
				if n.im == 2 {
					return []poly{fld(rec, "ImLimitExtra").add(gb, 1)}
				}
				return []poly{gb}
			}, until: func(n proCase) string {
				if n.im == 2 {
					return "same"
				}
				return "month"
			}},
		{name: "ProlongImExtra", grant: "ImLimitExtra", price: func(rec *V, n proCase, gb poly) poly { return rate.mul(fld(rec, "ImLimitExtra")).mul(gbp) },
			got:   func(p *Path, rec *V, n proCase, gb poly) []poly { return []poly{fld(rec, "ImLimitExtra")} },
			until: func(n proCase) string { return "later" }, skip: func(n proCase) bool { return n.im == 0 }},
		{name: "GiveStorageUp", grant: "StorageLimit", got: func(p *Path, rec *V, n proCase, gb poly) []poly {
			g := gb.mul(polyInt(gbSize))
			lo, hi := p.sign(g.add(base, -1))
			r := []poly{}
			add := func(q poly) {
				if l, _ := p.sign(q.add(fld(rec, "StorageCurrent"), -1)); l < 0 {
					return
				}
				if _, h := p.sign(q.add(fld(rec, "StorageLimit"), -1)); h >= 0 {
					return
				}
				r = append(r, q)
			}
			if hi <= 0 {
				add(base)
			}
			if lo >= 0 {
				add(g)
			}
			return r
		}},
		{name: "GiveImStorageUp", grant: "ImLimitExtra", got: func(p *Path, rec *V, n proCase, gb poly) []poly {
			if _, h := p.sign(gb.add(fld(rec, "ImLimitExtra"), -1)); h >= 0 || n.im != 2 {
				return nil
			}
			return []poly{gb}
		}, until: func(n proCase) string { return "given" }},
	}
	for _, o := range ops {
		f := c.method(proK, "Keeper", o.name)
		if f == nil {
			continue
		}
		for until := 0; until < 3; until++ {
			for im := 0; im < 3; im++ {
				n := proCase{nick: "Old", until: until, im: im}
				if o.skip != nil && o.skip(n) {
					continue
				}
				rec := m.load(n)
				gb := poly{}
				if a := paramNamed(f, isBasic(types.Uint32)); a != nil {
					gb = polyVar(a)
				}
				for _, p := range m.run(f, n, rec) {
					if p.O.panic || !p.ok() {
						continue
					}
					what := o.name + " (" + n.String() + ") " + p.exit(c)
					ok[o.name]++
					if o.active && until != 2 {
						note(kInactive+o.name, what, "accepted")
						continue
					}
					paid, why := m.charge(p)
					switch {
					case why != "":
						note(kPrice+o.name, what, why)
					case o.price == nil:
						if paid != nil {
							note(kPrice+o.name, what, "charges ", paid)
						}
					default:
						if w := o.price(rec, n, gb).trunc(); paid == nil || !paid.eq(w) {
							note(kPrice+o.name, what, "charges ", paid, " instead of ", w)
						} else if lo, _ := p.sign(w); lo < 1 {
							note(kFree+o.name, what, "the price may be 0")
						}
					}
					nv := m.rec(p.O.st, proAcc)
					if nv == nil {
						note(kGot+o.name, what, "the profile is not saved")
						continue
					}
					got := fld(nv, o.grant)
					good := false
					for _, w := range o.got(p, rec, n, gb) {
						good = good || got.eq(w)
					}
					if !good {
						note(kGot+o.name, what, o.grant, " becomes ", got, " of ", o.got(p, rec, n, gb))
					}
					s := m.typ.Underlying().(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						fn := s.Field(i).Name()
						was, is := m.field(rec, fn), taskTime(m.field(nv, fn))
						switch {
						case fn == o.grant:
						case fn == "ExtraImUntil" && o.until != nil:
							k := o.until(n)
							w := false
							switch {
							case k == "same":
								w = is == was
							case k == "month":
								w = months(is) == 1
							case k == "later":
								w = laterBy(is, m.imUntil, 1)
							case k == "given":
								_, hi := p.sign(gb)
								w = is == was && hi > 0 || is == vNil
							}
							if !w {
								note(kGot+o.name, what, "the time becomes ", is.str(5))
							}
						case is != was && !(fn == "CardNumber" && isZeroV(was)):
							note(kGot+o.name, what, fn, " becomes ", is.str(5))
						}
					}
				}
			}
		}
		for _, k := range []string{kPrice, kGot, kInactive, kFree} {
			if (k == kInactive && !o.active) || k == kFree && o.price == nil {
				continue
			}
			c.oblige(bad[k+o.name] == "" && ok[o.name] > 0, k, o.name, bad[k+o.name], ok[o.name])
		}
	}
}

// laterBy: the time is so many months after another.
func laterBy(t, was *V, n int64) bool {
	t = stripIface(t)
	return t.is("call:(time.Time).Add") && taskTime(t.args[0]) == was && polyOf(t.args[1]).eq(polyVar(Sym("month")).mul(polyInt(n)))
}
