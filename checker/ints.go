package main

import "sort"

// lin is an integer linear form: sum of coefficients times opaque terms; the constant is under nil.
type lin map[*V]int64

func linOf(v *V) lin {
	v = stripIface(v)
	if n, ok := intOf(v); ok {
		if n == 0 {
			return lin{}
		}
		return lin{nil: n}
	}
	if v.k == KApp && len(v.args) == 2 {
		switch v.op {
		case "bin:+":
			return linOf(v.args[0]).plus(linOf(v.args[1]), 1)
		case "bin:-":
			return linOf(v.args[0]).plus(linOf(v.args[1]), -1)
		case "bin:*":
			for i := 0; i < 2; i++ {
				if n, ok := intOf(v.args[i]); ok {
					return lin{}.plus(linOf(v.args[1-i]), n)
				}
			}
		}
	}
	if v.k == KApp && (v.hasOp("conv:") || v.is("conv")) && len(v.args) == 1 {
		return linOf(v.args[0])
	}
	return lin{v: 1}
}

func (l lin) plus(o lin, k int64) lin {
	r := lin{}
	for t, c := range l {
		r[t] += c
	}
	for t, c := range o {
		r[t] += k * c
	}
	for t, c := range r {
		if c == 0 {
			delete(r, t)
		}
	}
	return r
}

// norm divides by the common divisor; the sign is kept.
func (l lin) norm() lin {
	g := int64(0)
	for _, c := range l {
		if c < 0 {
			c = -c
		}
		for c != 0 {
			g, c = c, g%c
		}
	}
	if g <= 1 {
		return l
	}
	r := lin{}
	for t, c := range l {
		r[t] = c / g
	}
	return r
}

func (l lin) eq(o lin) bool {
	if len(l) != len(o) {
		return false
	}
	for t, c := range l {
		if o[t] != c {
			return false
		}
	}
	return true
}

func (l lin) same(o lin) bool { return l.norm().eq(o.norm()) }

// subst replaces the term t by the form f.
func (l lin) subst(t *V, f lin) lin {
	k := l[t]
	if k == 0 {
		return l
	}
	r := l.plus(lin{t: 1}, -k)
	return r.plus(f, k)
}

func (l lin) String() string {
	s := []string{}
	for t, c := range l {
		if t == nil {
			s = append(s, itoa(int(c)))
		} else {
			s = append(s, itoa(int(c))+"*"+t.String())
		}
	}
	sort.Strings(s)
	r := ""
	for i, x := range s {
		if i > 0 {
			r += " + "
		}
		r += x
	}
	return r
}

// single is the only term of the form, if it is that term alone.
func (l lin) single() *V {
	var r *V
	for t, k := range l.norm() {
		if k == 0 {
			continue
		}
		if k != 1 || r != nil {
			return nil
		}
		r = t
	}
	return r
}
