package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bounds of parameters: what no parameter may be. "=n": the number n; "ok=n": may be n; "neg", "nonpos", ">1": fractions;
// "acc": an account that is not one; "accs": a list with such; "empty": a list with nothing.
var paramBounds = map[string][]string{
	"bank.DustDelegation":                        {"=-1", "ok=0"},
	"bank.TransactionFee":                        {"neg"},
	"bank.MaxTransactionFee":                     {"=-1", "ok=0"},
	"bank.TransactionFeeSplitRatios.ForProposer": {"neg"},
	"bank.TransactionFeeSplitRatios.ForCompany":  {"neg"},
	"bank.TransactionFeeSplitRatios":             {"sum>1", "sumok"},
	"bank.CompanyAccount":                        {"acc"},
	"bank.BlockedSenders":                        {"accs"},
	"delegating.MinDelegate":                     {"=0", "=-1", "ok=1"},
	"delegating.Revoke.Period":                   {"=0", "ok=1"},
	"delegating.Revoke.Burn":                     {"neg", ">1", "ok0"},
	"delegating.ExpressRevoke.Period":            {"=0", "ok=1"},
	"delegating.ExpressRevoke.Burn":              {"neg", ">1", "ok0"},
	"delegating.AccruePercentageTable":           {"empty"},
	"earning.Signers":                            {"empty", "accs"},
	"noding.MaxValidators":                       {"=0", "ok=1"},
	"noding.JailAfter":                           {"=0", "ok=1"},
	"noding.UnjailAfter":                         {"=0", "ok=1"},
	"noding.VotingPower.LuckiesVotingPower":      {"=0", "=-1"},
	"noding.VotingPower.Slices":                  {"empty"},
	"profile.Creators":                           {"empty", "accs"},
	"profile.StorageSigners":                     {"empty", "accs"},
	"profile.VpnSigners":                         {"empty", "accs"},
	"profile.TokenRateSigners":                   {"empty", "accs"},
	"profile.TokenRate":                          {"nonpos"},
	"profile.SubscriptionPrice":                  {"=0", "ok=1"},
	"profile.VpnGbPrice":                         {"=0", "ok=1"},
	"profile.StorageGbPrice":                     {"=0", "ok=1"},
	"profile.BaseVpnGb":                          {"=0", "ok=1"},
	"profile.BaseStorageGb":                      {"=0", "ok=1"},
	"referral.CompanyAccounts.ForSubscription":   {"acc"},
	"schedule.DayNanos":                          {"=0", "=86400000000001", "=59999999999", "ok=86400000000000", "ok=60000000000"},
	"voting.VotingPeriod":                        {"=0", "=-1", "ok=1"},
	"voting.PollPeriod":                          {"=0", "=-1", "ok=1"},
}

// compositeParams: parameters whose bounds are those of the arguments of proposals about them.
var compositeParams = map[string]string{
	"noding.VotingPower":               "VotingPower",
	"noding.MinCriteria":               "MinCriteria",
	"delegating.AccruePercentageTable": "AccruePercentageTable",
	"delegating.Revoke":                "Revoke",
	"delegating.ExpressRevoke":         "Revoke",
}

// valueIs decides a comparison of v with numbers when v is n.
func valueIs(a, v *V, n int64) (bool, bool) {
	if !a.is("eq") && !a.is("lt") || len(a.args) != 2 || !mention(a, v) {
		return false, false
	}
	d := linOf(a.args[1]).plus(linOf(a.args[0]), -1)
	x := int64(0)
	for t, k := range d {
		switch t {
		case nil:
			x += k
		case v:
			x += k * n
		default:
			return false, false
		}
	}
	if a.is("eq") {
		return x == 0, true
	}
	return x > 0, true
}

// badBound is what is supposed of a value out of bounds.
func badBound(kind string, v *V) (func(a *V) (bool, bool), bool) {
	var n int64
	if _, err := fmt.Sscanf(kind, "=%d", &n); err == nil {
		return func(a *V) (bool, bool) { return valueIs(a, v, n) }, true
	}
	if _, err := fmt.Sscanf(kind, "ok=%d", &n); err == nil {
		return func(a *V) (bool, bool) { return valueIs(a, v, n) }, false
	}
	// num hundredths
	frac := func(num int64, is func(x *V) bool) func(a *V) (bool, bool) {
		return func(a *V) (bool, bool) {
			if len(a.args) == 0 {
				return false, false
			}
			op := a.op[strings.LastIndexByte(a.op, '.')+1:]
			if len(a.args) == 1 && is(stripIface(a.args[0])) {
				switch op {
				case "IsNegative":
					return num < 0, true
				case "IsPositive":
					return num > 0, true
				case "IsZero":
					return num == 0, true
				case "IsNullValue":
					return false, true
				}
			}
			if len(a.args) != 2 {
				return false, false
			}
			cmp := func(x *V) (int64, int64, bool) {
				x = stripIface(x)
				if is(x) {
					return num, 100, true
				}
				return numberOf(x)
			}
			n, d, ok := cmp(a.args[0])
			m, e, ok2 := cmp(a.args[1])
			if !ok || !ok2 || !is(stripIface(a.args[0])) && !is(stripIface(a.args[1])) {
				return false, false
			}
			x, y := n*e, m*d
			switch op {
			case "GT":
				return x > y, true
			case "GTE":
				return x >= y, true
			case "LT":
				return x < y, true
			case "LTE":
				return x <= y, true
			case "Equal":
				return x == y, true
			}
			return false, false
		}
	}
	this := func(x *V) bool { return x == v }
	sum := func(x *V) bool {
		return strings.HasSuffix(x.op, ".Add") && x.args[0] != x.args[1] && mention(x.args[0], v) && mention(x.args[1], v)
	}
	switch kind {
	case "neg":
		return frac(-1, this), true
	case "nonpos":
		return frac(0, this), true
	case ">1":
		return frac(101, this), true
	case "ok1":
		return frac(100, this), false
	case "ok0":
		return frac(0, this), false
	case "sum>1": // the numbers in it come to more than one
		return frac(101, sum), true
	case "sumok": // the numbers in it come to one
		return frac(100, sum), false
	case "acc":
		return func(a *V) (bool, bool) {
			return false, a.is("isnil") && a.args[0].is("badaddr") && a.args[0].args[0] == v
		}, true
	case "accs":
		return func(a *V) (bool, bool) {
			if r, ok := lenIs(a, v, 2); ok {
				return r, ok
			}
			if a.is("isnil") && a.args[0].is("badaddr") && a.args[0].args[0].is("index") && a.args[0].args[0].args[0] == v {
				n, ok := intOf(a.args[0].args[0].args[1])
				return n != 1, ok // the second one is wrong
			}
			return false, false
		}, true
	case "empty":
		return func(a *V) (bool, bool) {
			if a.is("isnil") && a.args[0] == v {
				return true, true
			}
			return lenIs(a, v, 0)
		}, true
	}
	return nil, false
}

func ruleParams(c *Check) {
	const (
		kAll   = "every parameter is stored under a key of its own"
		kType  = "a parameter is checked as what it is"
		kBound = "a parameter out of bounds is refused when it is set"
		kValid = "parameters out of bounds are refused in genesis"
		kOk    = "a parameter within its bounds is accepted"
		kSet   = "parameters are set and read as a whole"
		kGen   = "genesis with invalid parameters is refused"
		kKnown = "bounds of parameters"
	)
	inl := func(f *ssa.Function) bool { return anyRepo(f) && !c.fraction(f) }
	used := map[string]bool{}
	var rels []string
	for rel := range c.P.byRel {
		if strings.HasPrefix(rel, "x/") && strings.HasSuffix(rel, "/types") {
			rels = append(rels, rel)
		}
	}
	sort.Strings(rels)
	nm := 0
	for _, rel := range rels {
		pt := c.P.typ(rel, "Params")
		if pt == nil {
			continue
		}
		st, ok := pt.Underlying().(*types.Struct)
		m := strings.TrimSuffix(strings.TrimPrefix(rel, "x/"), "/types")
		pairs := c.P.methodOf(pt, "ParamSetPairs")
		valid := c.P.methodOf(pt, "Validate")
		if !ok || !c.oblige(pairs != nil && valid != nil, "anchor", rel+".Params") {
			continue
		}
		nm++
		// the pairs
		vf := map[string]*V{}
		keys := map[string]string{}
		n := 0
		root := Sym("p")
		for _, p := range c.paths(pairs, []*V{root}, pathOpts{inline: inl, watchI: named("NewParamSetPair")}) {
			if p.O.panic {
				continue
			}
			n++
			if p.O.vals[0].k != KList || len(p.O.vals[0].args) != len(p.Ev) {
				c.oblige(false, kAll, rel, "not all pairs are returned: ", p.O.vals[0])
			}
			for _, e := range p.Ev {
				key := fmt.Sprint(e.Args[0])
				field := ""
				for i := 0; i < st.NumFields(); i++ {
					if fieldVal(root, pt, st.Field(i).Name()) == stripIface(e.Args[1]) {
						field = st.Field(i).Name()
					}
				}
				id := m + "." + field
				c.oblige(field != "" && vf[field] == nil, kAll, id, e.Args[1])
				c.oblige(keys[key] == "" && !isNilV(e.Args[0]), kAll, id, "key of ", keys[key])
				keys[key] = field
				vf[field] = stripIface(e.Args[2])
			}
		}
		c.oblige(n == 1, kAll, rel, n, " ways")
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			id := m + "." + f.Name()
			v := vf[f.Name()]
			if !c.oblige(v != nil && v.k == KFunc, kAll, id, "not stored") {
				continue
			}
			run := func(arg *V, hyp func(a *V) (bool, bool)) (bool, bool) {
				n, ok := 0, false
				for _, p := range c.paths(v.fn, []*V{arg}, pathOpts{inline: inl, free: v.args, unroll: 12, hyp: func(x *Exec, a *V, st *State) (bool, bool) {
					if hyp == nil {
						return false, false
					}
					return hyp(a)
				}}) {
					if !p.O.panic {
						n++
						ok = ok || p.Ok
					}
				}
				return n > 0, ok
			}
			if ran, ok := run(Iface(f.Type(), Sym("v")), nil); !ran || !ok {
				c.oblige(false, kType, id, "never accepted")
			} else {
				c.oblige(true, kType, id)
			}
			if ran, ok := run(Iface(types.NewPointer(pt), Sym("v")), nil); ran {
				c.oblige(!ok, kType, id, "accepts another type")
			}
			// parameters that are made of several values
			if args := compositeParams[id]; args != "" {
				used[id] = true
				for _, pc := range proposalCases {
					if pc.args != args {
						continue
					}
					for j, list := range []string{pc.ok, pc.bad} {
						for _, s := range strings.Split(list, ";") {
							if s = strings.TrimSpace(s); s == "" {
								continue
							}
							tree := parseCase(strings.ReplaceAll(s, "@", ""))
							if t := tree.kids[f.Name()]; t != nil {
								tree = t
							} else if t := tree.kids[args]; t != nil {
								tree = t
							}
							v := c.given(f.Type(), tree, "v")
							ran, ok := run(Iface(f.Type(), v), givenHolds)
							whole := update(Sym("p"), FieldSel(pt, i), v)
							good := false
							for _, p := range c.paths(valid, []*V{whole}, pathOpts{inline: inl, unroll: 12, hyp: func(x *Exec, a *V, st *State) (bool, bool) { return givenHolds(a) }}) {
								good = good || !p.O.panic && p.Ok
							}
							if j == 0 {
								c.oblige(ran && ok, kOk, id+": "+s, "refused")
								c.oblige(good, kOk, "genesis "+id+": "+s, "refused")
							} else {
								c.oblige(ran && !ok, kBound, id+": "+s, "accepted")
								c.oblige(!good, kValid, "genesis "+id+": "+s, "accepted")
							}
						}
					}
				}
			}
			// bounds
			var bs []string
			for b := range paramBounds {
				if b == id || strings.HasPrefix(b, id+".") {
					bs = append(bs, b)
				}
			}
			sort.Strings(bs)
			for _, b := range bs {
				used[b] = true
				rest := strings.TrimPrefix(strings.TrimPrefix(b, id), ".")
				at, vt := Sym("v"), f.Type()
				if rest != "" {
					at = fieldPath(vt, at, rest)
				}
				whole := fieldPath(pt, Sym("p"), strings.TrimPrefix(b, m+"."))
				if !c.oblige(at != nil && whole != nil, "anchor", b, "no such parameter") {
					continue
				}
				for _, kind := range paramBounds[b] {
					hyp, refuse := badBound(kind, at)
					hypW, _ := badBound(kind, whole)
					ran, ok := run(Iface(f.Type(), Sym("v")), hyp)
					if refuse {
						c.oblige(ran && !ok, kBound, b+" "+kind, "accepted")
						c.refused(kValid+": "+b+" "+kind, valid, []*V{Sym("p")}, pathOpts{inline: inl}, hypW)
					} else {
						c.oblige(ran && ok, kOk, b+" "+kind, "refused")
						good := false
						for _, p := range c.paths(valid, []*V{Sym("p")}, pathOpts{inline: inl, hyp: func(x *Exec, a *V, st *State) (bool, bool) { return hypW(a) }}) {
							good = good || !p.O.panic && p.Ok
						}
						c.oblige(good, kOk, "genesis "+b+" "+kind, "refused")
					}
				}
			}
		}
		// genesis
		if f := c.P.fn(rel, "ValidateGenesis"); f != nil {
			n, bad := 0, ""
			k := 0
			for _, p := range c.paths(f, nil, pathOpts{inline: func(g *ssa.Function) bool { return inl(g) && g != valid }, watch: set(valid), fails: true, unroll: 1}) {
				if p.O.panic {
					continue
				}
				n++
				if p.O.st.ev["failed"] != nil {
					k++
				}
				if p.O.st.ev["failed"] != nil && p.Ok || p.Ok && !p.has(calls(valid)) {
					bad = p.exit(c)
				}
			}
			c.oblige(n > 0 && k > 0 && bad == "", kGen, rel, n, " ", k, " ", bad)
		} else if gt := c.P.typ(rel, "GenesisState"); gt != nil && isFieldOf(gt, "Params") {
			c.oblige(false, "anchor", rel+".ValidateGenesis", "gone")
		}
	}
	for b := range paramBounds {
		c.oblige(used[b], kKnown, b, "no such parameter")
	}
	for b := range compositeParams {
		c.oblige(used[b], kKnown, b, "no such parameter")
	}
	c.oblige(nm >= 8, "anchor", "modules with parameters", nm)
}

// fraction: the functions of the type of fractions, and those that make one of whole numbers (U01 decides what they do).
func (c *Check) fraction(f *ssa.Function) bool {
	sig := f.Signature
	if r := sig.Recv(); r != nil {
		return strings.HasSuffix(typeName(r.Type()), "util.Fraction")
	}
	if sig.Results().Len() != 1 || !strings.HasSuffix(typeName(sig.Results().At(0).Type()), "util.Fraction") {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if b, ok := sig.Params().At(i).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return false
		}
	}
	return true
}

// numberOf is the number a fraction made of whole numbers names.
func numberOf(v *V) (n, d int64, ok bool) {
	var as []int64
	for _, a := range v.args {
		n, ok := intOf(a)
		if !ok {
			return 0, 0, false
		}
		as = append(as, n)
	}
	switch op := v.op[strings.LastIndexByte(v.op, '.')+1:]; {
	case v.k != KApp:
	case op == "Percent" && len(as) == 1:
		return as[0], 100, true
	case op == "Permille" && len(as) == 1:
		return as[0], 1000, true
	case op == "FractionInt" && len(as) == 1:
		return as[0], 1, true
	case op == "FractionZero" && len(as) == 0:
		return 0, 1, true
	case op == "NewFraction" && len(as) == 2 && as[1] > 0:
		return as[0], as[1], true
	}
	return 0, 0, false
}

func init() { register("G04", ruleParams) }
