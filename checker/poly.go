package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// poly is a normal form of amounts: a sum of monomials with rational coefficients, where the factors of a monomial are
// opaque terms with integer (perhaps negative) exponents. What is rounded down to an integer is an opaque term of its own.
type poly map[string]*big.Rat

var polyVars = map[int]*V{}

type factor struct{ id, exp int }

func monoKey(fs []factor) string {
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	s := []string{}
	for i := 0; i < len(fs); {
		j, e := i, 0
		for ; j < len(fs) && fs[j].id == fs[i].id; j++ {
			e += fs[j].exp
		}
		if e != 0 {
			s = append(s, itoa(fs[i].id)+"^"+itoa(e))
		}
		i = j
	}
	return strings.Join(s, " ")
}

func factors(k string) (r []factor) {
	for _, w := range strings.Fields(k) {
		i := strings.IndexByte(w, '^')
		a, _ := strconv.Atoi(w[:i])
		b, _ := strconv.Atoi(w[i+1:])
		r = append(r, factor{a, b})
	}
	return
}

func polyInt(n int64) poly { return poly{}.add(poly{"": big.NewRat(n, 1)}, 1) }

func polyVar(v *V) poly {
	polyVars[v.id] = v
	return poly{itoa(v.id) + "^1": big.NewRat(1, 1)}
}

func (a poly) add(b poly, k int64) poly {
	r := poly{}
	for m, c := range a {
		r[m] = new(big.Rat).Set(c)
	}
	for m, c := range b {
		if r[m] == nil {
			r[m] = new(big.Rat)
		}
		r[m].Add(r[m], new(big.Rat).Mul(c, big.NewRat(k, 1)))
	}
	for m, c := range r {
		if c.Sign() == 0 {
			delete(r, m)
		}
	}
	return r
}

func (a poly) mul(b poly) poly {
	r := poly{}
	for m, c := range a {
		for n, d := range b {
			k := monoKey(append(factors(m), factors(n)...))
			r = r.add(poly{k: new(big.Rat).Mul(c, d)}, 1)
		}
	}
	return r
}

// inv is the inverse (of more than one monomial: an opaque one).
func (a poly) inv() poly {
	if len(a) == 1 {
		for m, c := range a {
			fs := factors(m)
			for i := range fs {
				fs[i].exp = -fs[i].exp
			}
			return poly{monoKey(fs): new(big.Rat).Inv(c)}
		}
	}
	return polyVar(rawApp("inverse", Str(a.key())))
}

func (a poly) eq(b poly) bool { return len(a.add(b, -1)) == 0 }

func (a poly) key() string {
	ks := []string{}
	for m, c := range a {
		ks = append(ks, c.RatString()+" "+m)
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

func (a poly) constant() (*big.Rat, bool) {
	switch len(a) {
	case 0:
		return new(big.Rat), true
	case 1:
		if c := a[""]; c != nil {
			return c, true
		}
	}
	return nil, false
}

// trunc is the integer part.
func (a poly) trunc() poly {
	if c, ok := a.constant(); ok {
		return poly{}.add(poly{"": new(big.Rat).SetInt(new(big.Int).Quo(c.Num(), c.Denom()))}, 1)
	}
	return polyVar(truncOf(a))
}

var truncs = map[*V]poly{}

func truncOf(a poly) *V {
	v := rawApp("trunc", Str(a.key()))
	truncs[v] = a
	return v
}

func (a poly) String() string {
	ks := []string{}
	for m, c := range a {
		s := c.RatString()
		for _, f := range factors(m) {
			v := polyVars[f.id]
			t := v.str(4)
			if p, ok := truncs[v]; ok {
				t = "int(" + p.String() + ")"
			}
			s += "·" + t
			if f.exp != 1 {
				s += "^" + itoa(f.exp)
			}
		}
		ks = append(ks, s)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return "0"
	}
	return strings.Join(ks, " + ")
}

// polyOf is the normal form of an amount.
func polyOf(v *V) poly {
	v = stripIface(v)
	if n, ok := intOf(v); ok {
		return polyInt(n)
	}
	if v.k == KZero || v.k == KNil {
		return poly{}
	}
	if v == unit {
		return polyInt(1)
	}
	if v.k != KApp {
		return polyVar(v)
	}
	arg := func(i int) poly { return polyOf(v.args[i]) }
	switch {
	case v.is("bin:+"):
		return arg(0).add(arg(1), 1)
	case v.is("bin:-"):
		return arg(0).add(arg(1), -1)
	case v.is("neg") && len(v.args) == 1:
		return poly{}.add(arg(0), -1)
	case v.is("bin:*"):
		return arg(0).mul(arg(1))
	case (v.hasOp("conv:") || v.is("conv")) && len(v.args) == 1:
		return arg(0)
	case v.is("bin:/"):
		return polyVar(truncOf(arg(0).mul(arg(1).inv())))
	}
	if strings.HasSuffix(v.op, ".OneMonth") {
		return polyVar(Sym("month"))
	}
	if !v.hasOp("call:") {
		return polyVar(v)
	}
	n := v.op[strings.LastIndexByte(v.op, '.')+1:]
	if strings.HasSuffix(v.op, "(time.Duration).Nanoseconds") && len(v.args) == 1 {
		return arg(0)
	}
	if strings.HasSuffix(v.op, "(*math/big.Int).Set") && len(v.args) >= 2 {
		return arg(1)
	}
	if !strings.Contains(v.op, "util.") {
		return polyVar(v)
	}
	m := strings.Contains(v.op, "util.Fraction).")
	switch {
	case m && (n == "Reduce" || n == "Clone") && len(v.args) >= 1:
		return arg(0)
	case m && n == "Neg":
		return poly{}.add(arg(0), -1)
	case m && n == "Add" && len(v.args) >= 2:
		return arg(0).add(arg(1), 1)
	case m && n == "Sub" && len(v.args) >= 2:
		return arg(0).add(arg(1), -1)
	case m && (n == "Mul" || n == "MulInt64") && len(v.args) >= 2:
		return arg(0).mul(arg(1))
	case m && (n == "Div" || n == "DivInt64") && len(v.args) >= 2:
		return arg(0).mul(arg(1).inv())
	case m && (n == "Int64" || n == "BigInt"):
		return arg(0).trunc()
	case n == "NewFraction" && len(v.args) >= 2:
		return arg(0).mul(arg(1).inv())
	case n == "FractionInt" && len(v.args) >= 1:
		return arg(0)
	case n == "FractionZero":
		return poly{}
	case n == "Percent" && len(v.args) >= 1:
		return arg(0).mul(poly{"": big.NewRat(1, 100)})
	case n == "Permille" && len(v.args) >= 1:
		return arg(0).mul(poly{"": big.NewRat(1, 1000)})
	}
	return polyVar(v)
}

// sign is what the path knows about the sign of a quantity: it is not below lo and not above hi (-1, 0, 1).
func (p *Path) sign(q poly) (lo, hi int) {
	lo, hi = -1, 1
	up := func(strict, pos bool) { // q > 0, q >= 0, q < 0, q <= 0
		n := 0
		if strict {
			n = 1
		}
		if pos && n > lo {
			lo = n
		}
		if !pos && -n < hi {
			hi = -n
		}
	}
	if c, ok := q.constant(); ok {
		return c.Sign(), c.Sign()
	}
	less := func(d poly, v bool) { // d > 0 is v
		if d.eq(q) {
			up(v, v)
		}
		if d.eq(poly{}.add(q, -1)) {
			up(v, !v)
		}
	}
	for a, v := range p.facts() {
		switch {
		case a.is("lt") && len(a.args) == 2:
			less(polyOf(a.args[1]).add(polyOf(a.args[0]), -1), v)
		case a.is("eq") && len(a.args) == 2:
			if v && polyOf(a.args[0]).add(polyOf(a.args[1]), -1).eq(q) || v && polyOf(a.args[1]).add(polyOf(a.args[0]), -1).eq(q) {
				lo, hi = 0, 0
			}
		case a.hasOp("call:") && strings.Contains(a.op, "util.Fraction).") && len(a.args) >= 1:
			d := polyOf(a.args[0])
			switch a.op[strings.LastIndexByte(a.op, '.')+1:] {
			case "IsNegative":
				less(poly{}.add(d, -1), v)
			case "IsPositive":
				less(d, v)
			case "IsZero":
				if v && (d.eq(q) || d.eq(poly{}.add(q, -1))) {
					lo, hi = 0, 0
				}
			}
		}
	}
	return
}

// coinPoly is the amount of the coins, all of one denomination (nil: they are not).
func coinPoly(v *V, denom string) poly {
	r := poly{}
	for t, k := range coinLin(v) {
		if !t.is("unitcoin") || t.args[0] != Str(denom) {
			return nil
		}
		r = r.add(polyOf(t.args[1]), k)
	}
	return r
}

// unround is the quantity before roundings.
func unround(a poly) poly {
	r := poly{}
	for m, c := range a {
		t := poly{"": c}
		for _, f := range factors(m) {
			q := polyVar(polyVars[f.id])
			if b, ok := truncs[polyVars[f.id]]; ok {
				q = unround(b)
			}
			for e := f.exp; e < 0; e++ {
				t = t.mul(q.inv())
			}
			for e := f.exp; e > 0; e-- {
				t = t.mul(q)
			}
		}
		r = r.add(t, 1)
	}
	return r
}
