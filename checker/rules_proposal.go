package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V07: what a proposal asks for can be carried out, or the proposal is refused before it opens.
//
// The check of a proposal is decided for values at and beyond every bound: each case gives values to some fields of
// the arguments (the others are unknown), the check is followed with them, and no way to success (or some) may be
// left. Fractions stay what they are; comparisons between them are decided by the numbers they stand for.

func init() { register("V07", ruleProposals) }

// proposalCases: kind of arguments, kinds of decisions (all with these arguments if empty), cases "fields: bad|ok".
// Values: 12 number, %12 hundredths, !x account x is none, "text", nil, [..] by index.
var proposalCases = []struct{ args, types, ok, bad string }{
	{"Price", "ENTER_PRICE PRODUCT_VPN_BASE_PRICE PRODUCT_STORAGE_BASE_PRICE", "Price=1", "Price=0"},
	{"Price", "TRANSITION_PRICE", "Price=0; Price=1", ""},
	{"DelegationAward", "", "Award.Minimal=1 Award.ThousandPlus=2 Award.TenKPlus=3 Award.HundredKPlus=4",
		"Award.Minimal=0; Award.ThousandPlus=0; Award.TenKPlus=-1; Award.HundredKPlus=0; Award.Minimal=2 Award.ThousandPlus=1; Award.ThousandPlus=2 Award.TenKPlus=1; Award.TenKPlus=2 Award.HundredKPlus=1"},
	{"NetworkAward", "", "Award.Company=%5 Award.Network=[10]%9", "Award.Company=%-1; Award.Company=%10 Award.Network=[10]%9; Award.Company=%5 Award.Network=[10]%5 Award.Network[9]=%-1; Award.Company=%5 Award.Network=[10]%5 Award.Network[0]=%-1; Award.Company=%90 Award.Network=[10]%0 Award.Network[9]=%10"},
	{"Address", "", "Address=!good", "Address=!bad"},
	{"SoftwareUpgrade", "", `Name="x" Height=0 Time=at`, `Name="" Height=0 Time=at; Name="x" Height=1 Time=at; Name="x" Height=0 Time=nil`},
	{"MinAmount", "MIN_SEND", "MinAmount=1", ""},
	{"MinAmount", "MIN_DELEGATE", "MinAmount=1", "MinAmount=0; MinAmount=-1"},
	{"MinAmount", "DUST_DELEGATION MAX_TRANSACTION_FEE", "MinAmount=0; MinAmount=1", "MinAmount=-1"},
	{"Count", "MAX_VALIDATORS JAIL_AFTER", "Count=1", "Count=0"},
	{"Count", "LUCKY_VALIDATORS", "Count=0; Count=1", ""},
	{"Status", "", "Status=MinimumStatus; Status=MaximumStatus", "Status=MinimumStatus-1; Status=MaximumStatus+1; Status=HeroDeprecatedStatus"},
	{"MinCriteria", "", "MinCriteria.Status=MinimumStatus MinCriteria.SelfStake=5 MinCriteria.TotalStake=5", "MinCriteria.Status=MinimumStatus-1; MinCriteria.Status=MaximumStatus+1; MinCriteria.Status=HeroDeprecatedStatus; MinCriteria.SelfStake=5 MinCriteria.TotalStake=4"},
	{"Period", "", "Days=1", "Days=0"},
	{"VotingPower", "", "@LuckiesVotingPower=1 @Slices=[2]_ @Slices[0].VotingPower=1 @Slices[1].VotingPower=1 @Slices[0].Part=%40 @Slices[1].Part=%60",
		"@LuckiesVotingPower=0; @LuckiesVotingPower=-1; @Slices=[0]_; @Slices=[2]_ @Slices[1].VotingPower=0; @Slices=[2]_ @Slices[1].Part=%0; @Slices=[2]_ @Slices[0].Part=%-1;" +
			"@Slices=[2]_ @Slices[0].Part=%40 @Slices[1].Part=%61; @Slices=[2]_ @Slices[0].Part=%40 @Slices[1].Part=%59"},
	{"Portion", "", "Fraction=%0; Fraction=%99", "Fraction=%-1; Fraction=%100; Fraction=nil"},
	{"Portions", "", "Fractions=[2]%50; Fractions=[2]%0 Fractions[0]=%100; Fractions=[2]%0", "Fractions=[2]%0 Fractions[0]=%-1; Fractions=[2]%5 Fractions[1]=%-1; Fractions=[2]%51; Fractions=[2]%0 Fractions[0]=%101; Fractions=[2]%0 Fractions[1]=%101; Fractions=[2]%5 Fractions[1]=nil; Fractions=[2]%5 Fractions[0]=nil"},
	{"AccruePercentageRanges", "", "AccruePercentageRanges=[2]_ AccruePercentageRanges[0].Start=0 AccruePercentageRanges[1].Start=1 AccruePercentageRanges[0].Percent=%0 AccruePercentageRanges[1].Percent=%1",
		"AccruePercentageRanges=[0]_; AccruePercentageRanges=[2]_ AccruePercentageRanges[1].Percent=%-1; AccruePercentageRanges=[2]_ AccruePercentageRanges[0].Start=1 AccruePercentageRanges[1].Start=1; AccruePercentageRanges=[2]_ AccruePercentageRanges[0].Percent=%2 AccruePercentageRanges[1].Percent=%1"},
	{"AccruePercentageTable", "", "AccruePercentageTable=[2]_ AccruePercentageTable[0].Start=0 AccruePercentageTable[1].Start=1 AccruePercentageTable[0].PercentList=[5]%0 AccruePercentageTable[1].PercentList=[5]%1",
		"AccruePercentageTable=[0]_; AccruePercentageTable=[1]_ AccruePercentageTable[0].PercentList=[4]%1; AccruePercentageTable=[1]_ AccruePercentageTable[0].PercentList=[6]%1; AccruePercentageTable=[1]_ AccruePercentageTable[0].PercentList=[5]%1 AccruePercentageTable[0].Start=1;" +
			"AccruePercentageTable=[2]_ AccruePercentageTable[0].PercentList=[5]%1 AccruePercentageTable[0].Start=0 AccruePercentageTable[1].PercentList=[5]%1 AccruePercentageTable[1].PercentList[4]=%-1;" +
			"AccruePercentageTable=[2]_ AccruePercentageTable[0].PercentList=[5]%1 AccruePercentageTable[0].PercentList[0]=%-1;" +
			"AccruePercentageTable=[3]_ AccruePercentageTable[0].PercentList=[5]%1 AccruePercentageTable[1].PercentList=[5]%1 AccruePercentageTable[0].Start=0 AccruePercentageTable[1].Start=5 AccruePercentageTable[2].Start=5 AccruePercentageTable[2].PercentList=[5]%1"},
	{"Revoke", "", "Revoke.Period=1 Revoke.Burn=%0; Revoke.Period=1 Revoke.Burn=%100", "Revoke.Period=0; Revoke.Burn=%-1; Revoke.Burn=%101"},
}

// valueTree is a value given in part.
type valueTree struct {
	leaf string
	n    int // length of a list, -1 if it is none
	elem string
	kids map[string]*valueTree
}

func (t *valueTree) kid(name string) *valueTree {
	if t.kids == nil {
		t.kids = map[string]*valueTree{}
	}
	if t.kids[name] == nil {
		t.kids[name] = &valueTree{n: -1}
	}
	return t.kids[name]
}

// parseCase reads "a.b=1 c[0]=2".
func parseCase(s string) *valueTree {
	root := &valueTree{n: -1}
	for _, w := range strings.Fields(s) {
		at, val, _ := strings.Cut(w, "=")
		t := root
		for _, part := range strings.Split(strings.ReplaceAll(at, "[", "."), ".") {
			t = t.kid(strings.TrimSuffix(part, "]"))
		}
		if strings.HasPrefix(val, "[") {
			n, rest, _ := strings.Cut(val[1:], "]")
			t.n, _ = strconv.Atoi(n)
			t.elem = rest
		} else {
			t.leaf = val
		}
	}
	return root
}

// given makes the value of type t the tree describes; name is that of what is unknown in it.
func (c *Check) given(t types.Type, tree *valueTree, name string) *V {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if tree.leaf == "nil" {
			return vNil
		}
		if tree.leaf == "" || tree.leaf == "_" {
			return c.given(p.Elem(), tree, name)
		}
	}
	switch l := tree.leaf; {
	case l == "" || l == "_":
	case strings.HasPrefix(l, "%"), strings.HasPrefix(l, "!"), l == "nil", l == "at":
		return Sym("given:" + l)
	case strings.HasPrefix(l, `"`):
		return Str(strings.Trim(l, `"`))
	default:
		for _, n := range []string{"MinimumStatus", "MaximumStatus", "HeroDeprecatedStatus"} {
			if strings.HasPrefix(l, n) {
				var b int64
				ok := false
				if pk := c.P.pkg(refT); pk != nil {
					if k, is := pk.Pkg.Scope().Lookup(n).(*types.Const); is {
						b, ok = constant.Int64Val(constant.ToInt(k.Val()))
					}
				}
				c.oblige(ok, "anchor", n, "gone")
				d, _ := strconv.ParseInt(l[len(n):], 10, 64)
				return Int(b + d)
			}
		}
		n, err := strconv.ParseInt(l, 10, 64)
		c.oblige(err == nil, "anchor", l, "no value")
		return Int(n)
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if tree.n < 0 {
			return Sym(name)
		}
		var vs []*V
		for i := 0; i < tree.n; i++ {
			k := tree.kid(fmt.Sprint(i))
			if k.leaf == "" && k.n < 0 && tree.elem != "_" {
				k.leaf = tree.elem
			}
			vs = append(vs, c.given(u.Elem(), k, fmt.Sprint(name, "[", i, "]")))
		}
		return List(vs...)
	case *types.Struct:
		v := Sym(name)
		var names []string
		for n := range tree.kids {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			i := indexOfField(t, n)
			if c.oblige(i >= 0, "anchor", typeName(t)+"."+n, "no such field") {
				v = update(v, FieldSel(t, i), c.given(u.Field(i).Type(), tree.kids[n], name+"."+n))
			}
		}
		return v
	}
	return Sym(name)
}

// givenFraction is the number of hundredths a fraction is, if that can be said.
func givenFraction(v *V) (int64, bool) {
	v = stripIface(v)
	if v.k == KSym && strings.HasPrefix(v.op, "given:%") {
		n, err := strconv.ParseInt(v.op[len("given:%"):], 10, 64)
		return n, err == nil
	}
	if n, d, ok := numberOf(v); ok && 100*n%d == 0 {
		return 100 * n / d, true
	}
	if v.k == KApp && len(v.args) == 2 && (strings.HasSuffix(v.op, ".Add") || strings.HasSuffix(v.op, ".Sub")) {
		a, ok := givenFraction(v.args[0])
		b, ok2 := givenFraction(v.args[1])
		if strings.HasSuffix(v.op, ".Sub") {
			b = -b
		}
		return a + b, ok && ok2
	}
	return 0, false
}

// givenHolds decides what follows from given values.
func givenHolds(a *V) (bool, bool) {
	if a.is("isnil") {
		x := stripIface(a.args[0])
		if x.is("badaddr") && x.args[0].k == KSym && strings.HasPrefix(x.args[0].op, "given:!") {
			return x.args[0].op == "given:!good", true
		}
		if x.k == KSym && strings.HasPrefix(x.op, "given:") {
			return x.op == "given:nil", true
		}
	}
	op := a.op[strings.LastIndexByte(a.op, '.')+1:]
	if a.k != KApp || len(a.args) == 0 {
		return false, false
	}
	if op == "IsNullValue" && len(a.args) == 1 && stripIface(a.args[0]).k == KSym && strings.HasPrefix(stripIface(a.args[0]).op, "given:") {
		return stripIface(a.args[0]).op == "given:nil", true
	}
	x, ok := givenFraction(a.args[0])
	if !ok {
		return false, false
	}
	if len(a.args) == 1 {
		switch op {
		case "IsNegative":
			return x < 0, true
		case "IsPositive":
			return x > 0, true
		case "IsZero":
			return x == 0, true
		case "IsNullValue":
			return false, true
		}
		return false, false
	}
	y, ok := givenFraction(a.args[1])
	if !ok || len(a.args) != 2 {
		return false, false
	}
	switch op {
	case "GT":
		return x > y, true
	case "GTE":
		return x >= y, true
	case "LT":
		return x < y, true
	case "LTE":
		return x <= y, true
	case "Equal":
		return x == y, true
	}
	return false, false
}

func ruleProposals(c *Check) {
	const (
		kBad   = "a proposal that could not be carried out is refused"
		kOk    = "a proposal that can be carried out is accepted"
		kKnown = "every kind of decision has its bounds"
	)
	pt, mt := c.P.typ(votT, "Proposal"), c.P.typ(votT, "MsgPropose")
	vb := c.method(votT, "MsgPropose", "ValidateBasic")
	if !c.oblige(pt != nil && mt != nil && vb != nil, "anchor", "MsgPropose", "gone") {
		return
	}
	enum := c.P.enum(votT, "ProposalType")
	names := []string{}
	for n := range enum {
		names = append(names, n)
	}
	sort.Strings(names)
	inl := func(f *ssa.Function) bool { return anyRepo(f) && !c.fraction(f) }
	set1 := func(v *V, t types.Type, name string, nv *V) *V { return update(v, FieldSel(t, indexOfField(t, name)), nv) }
	// proposal is one with a name, of an author, of a kind, with arguments
	proposal := func(name, author *V, kind int64, args *V) *V {
		p := set1(set1(set1(set1(Sym("proposal"), pt, "Name", name), pt, "Author", author), pt, "Type", Int(kind)), pt, "Args", args)
		return set1(Sym("msg"), mt, "Proposal", p)
	}
	tries := func(m *V) (ran, ok bool, where string) {
		for _, p := range c.paths(vb, []*V{m}, pathOpts{inline: inl, unroll: 12, hyp: func(x *Exec, a *V, st *State) (bool, bool) { return givenHolds(a) }}) {
			if p.O.panic {
				ran = true
				continue
			}
			ran = true
			if p.Ok {
				ok, where = true, p.exit(c)
			}
		}
		return
	}
	name, author := Str("name"), Sym("given:!good")
	n := 0
	for _, full := range names {
		kind := strings.TrimPrefix(full, "PROPOSAL_TYPE_")
		num := enum[full]
		ef, ok := decisionEffects[kind]
		if !c.oblige(ok, kKnown, kind, "unknown kind") {
			continue
		}
		inst := "kind " + kind
		if ef.args == "" {
			if kind == "UNSPECIFIED" {
				_, ok, w := tries(proposal(name, author, num, vNil))
				c.oblige(!ok, kBad, inst, "accepted ", w)
				continue
			}
			ran, ok, _ := tries(proposal(name, author, num, vNil))
			c.oblige(ran && ok, kOk, inst, "refused")
			_, ok, w := tries(proposal(Str(""), author, num, vNil))
			c.oblige(!ok, kBad, inst+" without a name", "accepted ", w)
			_, ok, w = tries(proposal(name, Sym("given:!bad"), num, vNil))
			c.oblige(!ok, kBad, inst+" of no account", "accepted ", w)
			n++
			continue
		}
		at := c.P.typ(votT, "Proposal_"+ef.args)
		if !c.oblige(at != nil, "anchor", "Proposal_"+ef.args, "gone") {
			continue
		}
		_, ok, w := tries(proposal(name, author, num, vNil))
		c.oblige(!ok, kBad, inst+" without arguments", "accepted ", w)
		found := false
		for _, pc := range proposalCases {
			if pc.args != ef.args || pc.types != "" && !strings.Contains(" "+pc.types+" ", " "+kind+" ") {
				continue
			}
			found = true
			st := at.Underlying().(*types.Struct)
			run := func(s string) (bool, bool, string) {
				s = strings.TrimSpace(s)
				tree := &valueTree{n: -1}
				inner := parseCase(strings.ReplaceAll(s, "@", ""))
				tree.kids = map[string]*valueTree{st.Field(0).Name(): inner}
				args := Iface(types.NewPointer(at), c.given(at, tree, "args"))
				return tries(proposal(name, author, num, args))
			}
			for _, s := range strings.Split(pc.bad, ";") {
				if strings.TrimSpace(s) == "" {
					continue
				}
				ran, ok, w := run(s)
				c.oblige(ran && !ok, kBad, inst+": "+strings.TrimSpace(s), "accepted ", w)
			}
			for _, s := range strings.Split(pc.ok, ";") {
				if strings.TrimSpace(s) == "" {
					continue
				}
				ran, ok, _ := run(s)
				c.oblige(ran && ok, kOk, inst+": "+strings.TrimSpace(s), "refused")
			}
		}
		c.oblige(found, kKnown, kind, "none")
		n++
	}
	c.oblige(n >= 40, "anchor", "kinds of decisions", n)
	// polls
	qt, st := c.P.typ(votT, "Poll"), c.P.typ(votT, "MsgStartPoll")
	vb = c.method(votT, "MsgStartPoll", "ValidateBasic")
	if !c.oblige(qt != nil && st != nil && vb != nil, "anchor", "MsgStartPoll", "gone") {
		return
	}
	for _, k := range []struct {
		ok   bool
		what string
		req  string // "MinStatus" with the value
	}{
		{true, `Name="n" Question="" Quorum=nil`, ""}, {true, `Name="" Question="q" Quorum=%0`, ""}, {true, `Name="n" Question="q" Quorum=%100`, ""},
		{false, `Name="" Question=""`, ""}, {false, `Name="n" Author=!bad`, ""}, {false, `Name="n" Quorum=%-1`, ""}, {false, `Name="n" Quorum=%101`, ""},
		{true, `Name="n" Quorum=nil`, "MinimumStatus"}, {true, `Name="n" Quorum=nil`, "MaximumStatus"},
		{false, `Name="n" Quorum=nil`, "MinimumStatus-1"}, {false, `Name="n" Quorum=nil`, "MaximumStatus+1"}, {false, `Name="n" Quorum=nil`, "HeroDeprecatedStatus"},
	} {
		what := k.what
		if !strings.Contains(what, "Author") {
			what += " Author=!good"
		}
		if k.ok || k.req != "" {
			what += " StartTime=nil EndTime=nil"
		}
		poll := c.given(qt, parseCase(what), "poll")
		if k.req != "" {
			rt := c.P.typ(votT, "Poll_MinStatus")
			if !c.oblige(rt != nil, "anchor", "Poll_MinStatus", "gone") {
				return
			}
			poll = update(poll, FieldSel(qt, indexOfField(qt, "Requirements")), Iface(types.NewPointer(rt), c.given(rt, parseCase("MinStatus="+k.req), "req")))
		}
		ran, ok, w := tries(set1(Sym("msg"), st, "Poll", poll))
		rule := kBad
		if k.ok {
			rule = kOk
		}
		c.oblige(ran && ok == k.ok, rule, "poll: "+k.what+" "+k.req, fmt.Sprint("accepted: ", ok, " ", w))
	}
}
