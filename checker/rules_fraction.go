package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fractions are exact: numerators and denominators as Laurent polynomials in the operands'.

var gcdOf = map[int][2]poly{} // the factor standing for a greatest common divisor -> what it divides

// bigs interprets math/big: the value a pointer points at is a term, and every operation writes its receiver.
type bigs struct {
	c    *Check
	sign map[int]int // of the factors of monomials
	dif  poly        // a number whose sign is supposed
	difS int
	bad  string
}

func (m *bigs) val(x *Exec, st *State, p *V) *V {
	v := x.load(st, p)
	if isZeroV(v) || v.k == KZero {
		return Int(0)
	}
	return v
}

// poly of a term of numbers; an inexact division is opaque.
func bigPoly(v *V) poly {
	if n, ok := intOf(v); ok {
		return polyInt(n)
	}
	v = stripIface(v)
	switch v.op {
	case "big.Mul":
		return bigPoly(v.args[0]).mul(bigPoly(v.args[1]))
	case "big.Add":
		return bigPoly(v.args[0]).add(bigPoly(v.args[1]), 1)
	case "big.Sub":
		return bigPoly(v.args[0]).add(bigPoly(v.args[1]), -1)
	case "big.Neg":
		return poly{}.add(bigPoly(v.args[0]), -1)
	case "big.Quo", "big.Div":
		p, q := bigPoly(v.args[0]), bigPoly(v.args[1])
		if len(q) == 1 {
			if r := p.mul(q.inv()); integral(r, 4) {
				return r
			}
		}
	case "big.GCD":
		p, q := bigPoly(v.args[0]), bigPoly(v.args[1])
		polyVar(v)
		gcdOf[v.id] = [2]poly{p, q}
	}
	return polyVar(v)
}

// integral: whole for all whole values of the variables (a common divisor divides what it is taken of).
func integral(p poly, d int) bool {
	if len(p) > 1 && d > 0 { // a multiple of what a common divisor divides
		for m, c := range p {
			for _, f := range factors(m) {
				if f.exp >= 0 {
					continue
				}
				pg := p.mul(poly{itoa(f.id) + "^1": polyInt(1)[""]})
				for _, u := range gcdOf[f.id] {
					for k, e := range u {
						r := poly{m: c}.mul(poly{itoa(f.id) + "^1": polyInt(1)[""]}).mul(poly{k: e}.inv())
						if len(u) > 1 && u.mul(r).eq(pg) && integral(r, d-1) {
							return true
						}
					}
				}
			}
		}
	}
	for m, c := range p {
		if !c.IsInt() {
			return false
		}
		done, whole := false, true
		for _, f := range factors(m) {
			if f.exp >= 0 || done {
				continue
			}
			whole = false
			g, ok := gcdOf[f.id]
			if !ok || d == 0 {
				return false
			}
			for _, u := range g {
				if len(u) == 1 && !done { // m = u/g * rest
					done = integral(poly{m: c}.mul(u.inv()).mul(poly{itoa(f.id) + "^1": polyInt(1)[""]}), d-1)
				}
			}
		}
		done = done || whole
		if !done {
			return false
		}
	}
	return true
}

func (m *bigs) call(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
	f := ci.Fn
	if f == nil {
		return false, nil
	}
	if fnPkgPath(f) == modPath+"/util" && f.Blocks != nil && !isGenerated(x.P, f) && x.onStack(f) == 0 {
		return true, x.exec(f, ci.Args, nil, st, ci.Site, ci.Ctx)
	}
	if fnPkgPath(f) != "math/big" {
		if f.Name() == "NewIntFromBigInt" {
			st.ev["result"] = m.val(x, st, ci.Args[0])
		}
		return false, nil
	}
	ret := func(v *V) (bool, []Outcome) { return true, []Outcome{{vals: []*V{v}, st: st}} }
	if f.Signature.Recv() == nil {
		if f.Name() == "NewInt" {
			p := rawApp("new", ci.Site)
			st.mem[p] = ci.Args[0]
			return ret(p)
		}
		return false, nil
	}
	z := ci.Args[0]
	args := []*V{}
	switch f.Name() {
	case "Mul", "Add", "Sub", "Quo", "Div", "Neg", "Set", "GCD", "Abs":
		for _, a := range ci.Args[1:] {
			if isNilV(a) {
				continue
			}
			args = append(args, m.val(x, st, a))
		}
		if f.Name() == "GCD" && len(args) != 2 {
			m.bad = "coefficients of a common divisor are written"
			return ret(z)
		}
		v := args[0]
		if f.Name() != "Set" {
			if f.Name() == "GCD" && args[1].id < args[0].id {
				args[0], args[1] = args[1], args[0]
			}
			v = rawApp("big."+f.Name(), args...)
		}
		x.store(st, z, v)
		return ret(z)
	case "Sign":
		v := bigPoly(m.val(x, st, z))
		if s, ok := m.signOf(st, v); ok {
			return ret(Int(int64(s)))
		}
		return ret(rawApp("sign", Str(v.key())))
	case "Cmp", "CmpAbs":
		a, b := m.val(x, st, z), m.val(x, st, ci.Args[1])
		if f.Name() == "Cmp" {
			if s, ok := m.signOf(st, bigPoly(a).add(bigPoly(b), -1)); ok {
				return ret(Int(int64(s)))
			}
			sa, ok1 := m.signOf(st, bigPoly(a))
			sb, ok2 := m.signOf(st, bigPoly(b))
			if ok1 && ok2 && sa != sb {
				if sa < sb {
					return ret(Int(-1))
				}
				return ret(Int(1))
			}
		}
		return ret(rawApp("big."+f.Name(), a, b))
	case "IsInt64", "IsUint64":
		return ret(rawApp("big."+f.Name(), m.val(x, st, z)))
	case "Int64":
		return ret(rawApp("big.Int64", m.val(x, st, z)))
	}
	m.bad = "unknown " + f.Name()
	return false, nil
}

func (m *bigs) signOf(st *State, p poly) (int, bool) {
	p = given(st.facts, p)
	dif := given(st.facts, m.dif)
	mono := func(k string) (int, bool) {
		s := 1
		for _, f := range factors(k) {
			t, ok := m.sign[f.id]
			if _, g := gcdOf[f.id]; g {
				t, ok = 1, true
			}
			if !ok {
				return 0, false
			}
			if f.exp%2 != 0 {
				s *= t
			} else {
				s *= t * t
			}
		}
		return s, true
	}
	if len(p) == 0 {
		return 0, true
	}
	if len(p) == 1 {
		for k, c := range p {
			s, ok := mono(k)
			return s * c.Sign(), ok
		}
	}
	if m.dif != nil {
		for k, c := range p {
			for k2, c2 := range dif {
				r := poly{k: c}.mul(poly{k2: c2}.inv())
				if dif.mul(r).eq(p) {
					for rk, rc := range r {
						s, ok := mono(rk)
						return s * rc.Sign() * m.difS, ok
					}
				}
			}
		}
	}
	return 0, false
}

// given replaces numbers the path knows to be equal to others.
func given(facts map[*V]bool, q poly) poly {
	for a, b := range facts {
		if !b || !a.is("eq") {
			continue
		}
		t := a.args[1]
		if t == Int(0) {
			t = a.args[0]
		} else if a.args[0] != Int(0) {
			continue
		}
		if !t.is("big.Cmp") {
			continue
		}
		u, v := t.args[0], t.args[1]
		if u.k != KSym {
			u, v = v, u
		}
		if u.k != KSym {
			continue
		}
		w, r := bigPoly(v), poly{}
		for m, c := range q {
			one := poly{"": c}
			for _, f := range factors(m) {
				t := poly{itoa(f.id) + "^1": polyInt(1)[""]}
				if f.id == u.id {
					t = w
				}
				for k := 0; k < f.exp; k++ {
					one = one.mul(t)
				}
				for k := 0; k > f.exp; k-- {
					one = one.mul(t.inv())
				}
			}
			r = r.add(one, 1)
		}
		q = r
	}
	return q
}

// fractions gives symbolic fractions, and a way to run what works with them.
func (c *Check) fractions(ft types.Type) (func(n string) *V, func(m *bigs, f *ssa.Function, args ...*V) []*Path) {
	frac := func(n string) *V {
		z := update(Sym(n), FieldSel(ft, 0), Sym(n+".num"))
		return update(z, FieldSel(ft, 1), Sym(n+".denom"))
	}
	run := func(m *bigs, f *ssa.Function, args ...*V) []*Path {
		return c.paths(f, args, pathOpts{onCall: m.call, limit: 200, outLimit: 200, hyp: func(_ *Exec, a *V, _ *State) (bool, bool) {
			if a.is("isnil") && a.args[0].k == KSym {
				return false, true
			}
			// signs nobody has supposed: not negative, not zero
			return false, false
		}})
	}
	return frac, run
}

func ruleFraction(c *Check) {
	const (
		kExact = "operations on fractions are exact"
		kApart = "an operation on fractions leaves its operands their values"
		kCmp   = "comparisons of fractions tell the order of the numbers"
		kTrunc = "a fraction becomes a whole number by dropping the part after the point"
		kLcm   = "the common denominator is a multiple of each"
	)
	ft := c.P.typ("util", "Fraction")
	if !c.oblige(ft != nil, "anchor", "util.Fraction") {
		return
	}
	frac, run := c.fractions(ft)
	pv := func(n string) poly { return polyVar(Sym(n)) }
	x, y := frac("x"), frac("y")
	xp, yp := pv("x.num").mul(pv("x.denom").inv()), pv("y.num").mul(pv("y.denom").inv())
	n := pv("n")
	dif := pv("x.num").mul(pv("y.denom")).add(pv("y.num").mul(pv("x.denom")), -1)
	value := func(p *Path, v *V) (poly, string) {
		v = stripIface(v)
		num, den := fieldVal(v, ft, "num"), fieldVal(v, ft, "denom")
		if num == nil || den == nil {
			return nil, "no fraction"
		}
		m := &bigs{}
		np, dp := given(p.facts(), bigPoly(m.val(p.X, p.O.st, num))), given(p.facts(), bigPoly(m.val(p.X, p.O.st, den)))
		if len(dp) != 1 {
			return nil, "denominator " + dp.String()
		}
		return np.mul(dp.inv()), ""
	}
	method := func(name string) *ssa.Function {
		f := c.P.methodOf(ft, name)
		c.oblige(f != nil, "anchor", "util.Fraction", name)
		return f
	}
	type op struct {
		name string
		args []*V
		want poly
		self bool // may return its operand
	}
	N := Sym("n")
	for _, o := range []op{
		{"Mul", []*V{x, y}, xp.mul(yp), false}, {"MulInt64", []*V{x, N}, xp.mul(n), false},
		{"Div", []*V{x, y}, xp.mul(yp.inv()), false}, {"DivInt64", []*V{x, N}, xp.mul(n.inv()), false},
		{"Add", []*V{x, y}, xp.add(yp, 1), false}, {"Sub", []*V{x, y}, xp.add(yp, -1), false},
		{"Neg", []*V{x}, poly{}.add(xp, -1), false}, {"Clone", []*V{x}, xp, false}, {"Reduce", []*V{x}, xp, true},
	} {
		f := method(o.name)
		if f == nil {
			continue
		}
		for _, sx := range []int{1, -1} {
			for _, sy := range []int{1, -1} {
				m := &bigs{c: c, sign: map[int]int{Sym("x.denom").id: sx, Sym("y.denom").id: sy, Sym("n").id: sy, Sym("x.num").id: 1, Sym("y.num").id: sy}}
				k, bad, apart := 0, "", ""
				for _, p := range run(m, f, o.args...) {
					if p.O.panic {
						continue
					}
					k++
					got, why := value(p, p.O.vals[0])
					if why != "" || !got.eq(given(p.facts(), o.want)) {
						bad = why + " " + got.String() + " instead of " + o.want.String()
					}
					for i, a := range o.args {
						if a.k != KStruct {
							continue
						}
						was := xp
						if i == 1 {
							was = yp
						}
						if now, why := value(p, a); why != "" || !now.eq(given(p.facts(), was)) {
							apart = "an operand changes"
						}
						for _, g := range []string{"num", "denom"} {
							for _, h := range []string{"num", "denom"} {
								if !o.self && fieldVal(stripIface(p.O.vals[0]), ft, g) == fieldVal(a, ft, h) {
									apart = "the result shares memory with an operand, which Reduce writes"
								}
							}
						}
					}
				}
				c.oblige(k > 0 && bad == "" && m.bad == "", kExact, o.name, bad, m.bad)
				c.oblige(apart == "", kApart, o.name, apart)
			}
		}
	}
	// made from whole numbers
	for name, want := range map[string]poly{"NewFraction": n.mul(pv("d").inv()), "Percent": n.mul(polyInt(100).inv()), "Permille": n.mul(polyInt(1000).inv()), "FractionInt": n, "FractionZero": {}} {
		f := c.fn("util", name)
		args := []*V{N, Sym("d")}[:f.Signature.Params().Len()]
		m := &bigs{c: c}
		k, bad := 0, ""
		for _, p := range run(m, f, args...) {
			if p.O.panic {
				continue
			}
			k++
			if got, why := value(p, p.O.vals[0]); why != "" || !got.eq(want) {
				bad = why + " " + got.String()
			}
		}
		c.oblige(k > 0 && bad == "", kExact, name, bad)
	}
	// comparisons
	for _, o := range []struct {
		name string
		is   func(s int) bool
		one  bool
	}{
		{"IsZero", func(s int) bool { return s == 0 }, true}, {"IsNegative", func(s int) bool { return s < 0 }, true}, {"IsPositive", func(s int) bool { return s > 0 }, true},
		{"Equal", func(s int) bool { return s == 0 }, false}, {"GT", func(s int) bool { return s > 0 }, false}, {"LT", func(s int) bool { return s < 0 }, false},
		{"GTE", func(s int) bool { return s >= 0 }, false}, {"LTE", func(s int) bool { return s <= 0 }, false},
	} {
		f := method(o.name)
		if f == nil {
			continue
		}
		for s := -1; s <= 1; s++ {
			for _, sx := range []int{1, -1} {
				for _, sy := range []int{1, -1} {
					m := &bigs{c: c, sign: map[int]int{Sym("x.denom").id: sx, Sym("y.denom").id: sy}}
					args := []*V{x, y}
					if o.one {
						m.sign[Sym("x.num").id] = s * sx
						args = args[:1]
					} else {
						m.dif, m.difS = dif, s*sx*sy
					}
					k, bad := 0, ""
					for _, p := range run(m, f, args...) {
						if p.O.panic {
							continue
						}
						k++
						if b, ok := p.known(p.O.vals[0]); p.O.vals[0] != Bool(o.is(s)) && (!ok || b != o.is(s)) {
							bad = p.O.vals[0].String()
						}
					}
					c.oblige(k > 0 && bad == "", kCmp, fmt.Sprint(o.name, " of ", s), k, " ", bad)
				}
			}
		}
	}
	// whole numbers
	for _, name := range []string{"Int64", "BigInt"} {
		f := method(name)
		if f == nil {
			continue
		}
		m := &bigs{c: c, sign: map[int]int{}}
		k, bad := 0, ""
		for _, p := range run(m, f, x) {
			if p.O.panic {
				continue
			}
			k++
			v := p.O.vals[0]
			if name == "BigInt" {
				v = m.val(p.X, p.O.st, v)
			} else if v.is("big.Int64") {
				v = v.args[0]
			} else {
				bad = v.String()
			}
			if !v.is("big.Quo") || !bigPoly(v.args[0]).mul(bigPoly(v.args[1]).inv()).eq(xp) {
				bad = v.String()
			}
		}
		c.oblige(k > 0 && bad == "", kTrunc, name, bad)
	}
	// the common denominator of the shares of a fee
	if f := c.fn("util", "CalculateTransactionFeeSplitRatiosLCM"); c.oblige(f != nil, "anchor", "util", "common denominator") {
		for _, s := range []int{1, -1} {
			m := &bigs{c: c, sign: map[int]int{Sym("x.denom").id: s, Sym("y.denom").id: s}}
			k, bad := 0, ""
			for _, p := range run(m, f, x, y) {
				if p.O.panic {
					continue
				}
				k++
				r := p.O.st.ev["result"]
				if r == nil {
					bad = "no number"
					continue
				}
				rp := bigPoly(r)
				for _, d := range []string{"x.denom", "y.denom"} {
					if len(rp) != 1 || !integral(rp.mul(pv(d).inv()), 6) {
						bad = "not a multiple of " + d
					}
				}
			}
			c.oblige(k > 0 && bad == "", kLcm, shortFn(f), strings.TrimSpace(bad))
		}
	}
	c.feeMath()
}

// feeMath: a fee is the rate of the amount without what is after the point, at most the maximum if there is one, less what
// cannot be divided into whole parts; the parts are the shares of it and the rest.
func (c *Check) feeMath() {
	const (
		kFee   = "a fee is the rate of the amount, at most the maximum, and can be split"
		kSplit = "a fee is split into its shares and the rest"
	)
	pv := func(n string) poly { return polyVar(Sym(n)) }
	ft := c.P.typ("util", "Fraction")
	if !c.oblige(ft != nil, "anchor", "util.Fraction") {
		return
	}
	frac, run := c.fractions(ft)
	calc, split := c.fn("util", "CalculateFee"), c.fn("util", "SplitFee")
	if !c.oblige(calc != nil && split != nil, "anchor", "util", "fees") {
		return
	}
	amt, max := Sym("amt"), Sym("max")
	// the number a whole number is cut from
	cut := func(v *V) (poly, bool) {
		if v.is("big.Int64") {
			v = v.args[0]
		}
		if !v.is("big.Quo") {
			return nil, false
		}
		q := bigPoly(v.args[1])
		if len(q) != 1 {
			return nil, false
		}
		return bigPoly(v.args[0]).mul(q.inv()), true
	}
	share := func(n string) poly { return pv(n + ".num").mul(pv(n + ".denom").inv()) }
	m := &bigs{c: c, sign: map[int]int{Sym("x.denom").id: 1, Sym("y.denom").id: 1, Sym("r.denom").id: 1}}
	n, bad := 0, ""
	seen := map[string]bool{}
	for _, p := range run(m, calc, amt, frac("r"), max, frac("x"), frac("y")) {
		if p.O.panic {
			continue
		}
		n++
		v := p.O.vals[0]
		var f, l *V
		switch {
		case v.is("bin:-") && v.args[1].is("bin:%") && v.args[1].args[0] == v.args[0]:
			f, l = v.args[0], v.args[1].args[1]
		case v.is("bin:*") && v.args[0].is("bin:/") && v.args[0].args[1] == v.args[1]:
			f, l = v.args[0].args[0], v.args[1]
		case v.is("bin:*") && v.args[1].is("bin:/") && v.args[1].args[1] == v.args[0]:
			f, l = v.args[1].args[0], v.args[0]
		default:
			bad = v.String()
			continue
		}
		lp := bigPoly(l)
		for _, d := range []string{"x.denom", "y.denom"} {
			if len(lp) != 1 || !integral(lp.mul(pv(d).inv()), 6) {
				bad = "not a multiple of " + d
			}
		}
		zero, zk := p.known(App("eq", Int(0), max))
		pos, pk := p.known(App("lt", Int(0), max))
		none, some := zk && zero || pk && !pos, zk && !zero || pk && pos
		if f == max {
			// more than the maximum
			ok := false
			for a, b := range p.facts() {
				if a.is("lt") && a.args[0] == max && b {
					if r, isCut := cut(a.args[1]); isCut && r.eq(share("r").mul(pv("amt"))) {
						ok = true
					}
				}
				if a.is("lt") && a.args[1] == max && !b {
					if r, isCut := cut(a.args[0]); isCut && r.eq(share("r").mul(pv("amt"))) {
						ok = true
					}
				}
			}
			if !ok || !some {
				bad = "the maximum where the fee is less or there is no maximum"
			}
			seen["max"] = true
			continue
		}
		r, ok := cut(f)
		if !ok || !r.eq(share("r").mul(pv("amt"))) {
			bad = "fee " + f.String()
			continue
		}
		if more, known := p.known(App("lt", max, f)); !none && (!known || more) {
			if less, known := p.known(App("lt", f, max)); !known || !less {
				bad = "a fee of more than the maximum"
			}
		}
		seen["rate"] = true
	}
	c.oblige(n > 0 && bad == "" && seen["max"] && seen["rate"] && m.bad == "", kFee, shortFn(calc), bad, m.bad)
	m = &bigs{c: c, sign: m.sign}
	n, bad = 0, ""
	for _, p := range run(m, split, amt, frac("x"), frac("y")) {
		if p.O.panic {
			continue
		}
		n++
		rest := polyInt(1).add(share("x"), -1).add(share("y"), -1)
		for i, want := range []poly{share("x"), share("y"), rest} {
			r, ok := cut(p.O.vals[i])
			if !ok || !given(p.facts(), r).eq(given(p.facts(), want.mul(pv("amt")))) {
				bad = fmt.Sprint("part ", i, " is ", p.O.vals[i])
			}
		}
	}
	c.oblige(n > 0 && bad == "" && m.bad == "", kSplit, shortFn(split), bad, m.bad)
}

func init() { register("U01", ruleFraction) }