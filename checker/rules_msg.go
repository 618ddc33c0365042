package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The messages: the field naming the account that acts, what the handler does with it, and what is malformed.
type msgSpec struct {
	actor string // path of the field
	op    string // the operation of the keeper; "" if another rule follows the handler
	args  string // its arguments
	zero  string // fields that must be more than zero
	empty string // lists that must not be empty
	unset string // fields to be left unset
}

var msgSpecs = map[string]msgSpec{
	"bank.Send":                 {actor: "FromAddress"},
	"bank.Burn":                 {actor: "Account", zero: "Amount"},
	"delegating.Delegate":       {actor: "Address", op: "Delegate", args: "Address MicroCoins", zero: "MicroCoins"},
	"delegating.Revoke":         {actor: "Address", op: "Revoke", args: "Address MicroCoins false", zero: "MicroCoins"},
	"delegating.ExpressRevoke":  {actor: "Address", op: "Revoke", args: "Address MicroCoins true", zero: "MicroCoins"},
	"earning.Set":               {actor: "Signer"},
	"earning.SetMultiple":       {actor: "Signer", empty: "Earners"},
	"noding.On":                 {actor: "Account", op: "SwitchOn", args: "Account PubKey"},
	"noding.Off":                {actor: "Account", op: "SwitchOff", args: "Account"},
	"noding.Unjail":             {actor: "Account", op: "Unjail", args: "Account"},
	"profile.CreateAccount":     {actor: "Creator"},
	"profile.UpdateProfile":     {actor: "Address", empty: "Updates"},
	"profile.SetStorageCurrent": {actor: "Sender"},
	"profile.SetVpnCurrent":     {actor: "Sender"},
	"profile.SetRate":           {actor: "Sender", zero: "Value"},
	"profile.PayTariff":         {actor: "Address", op: "PayTariff", args: "Address StorageAmount false"},
	"profile.BuyStorage":        {actor: "Address", op: "BuyStorage", args: "Address ExtraStorage", zero: "ExtraStorage"},
	"profile.BuyVpn":            {actor: "Address", op: "BuyVpn", args: "Address ExtraTraffic", zero: "ExtraTraffic"},
	"profile.GiveStorageUp":     {actor: "Address", op: "GiveStorageUp", args: "Address Amount", zero: "Amount"},
	"profile.BuyImExtraStorage": {actor: "Address", op: "BuyImStorage", args: "Address ExtraStorage", zero: "ExtraStorage"},
	"profile.GiveUpImExtra":     {actor: "Address", op: "GiveImStorageUp", args: "Address Amount"},
	"profile.ProlongImExtra":    {actor: "Address", op: "ProlongImExtra", args: "Address"},
	"referral.RequestTransition": {actor: "Subject", op: "RequestTransition", args: "Subject Destination"},
	"referral.ResolveTransition": {actor: "Signer"},
	"voting.Propose":             {actor: "Proposal.Author", op: "Propose", args: "*", unset: "Proposal.EndTime"},
	"voting.Vote":                {actor: "Voter", op: "Vote", args: "Voter Agree"},
	"voting.StartPoll":           {actor: "Poll.Author", op: "StartPoll", args: "Poll", unset: "Poll.StartTime Poll.EndTime"},
	"voting.AnswerPoll":          {actor: "Respondent", op: "Answer", args: "Respondent Yes"},
}

// path is a field of a field... of a value.
func fieldPath(t types.Type, v *V, path string) *V {
	for _, n := range strings.Split(path, ".") {
		if v == nil || t == nil {
			return nil
		}
		v, t = fieldVal(v, t, n), fieldType(t, n)
	}
	return v
}

// msgOp finds a method of a message, given by value or by pointer.
func (P *Program) methodOf(t types.Type, name string) *ssa.Function {
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		if s := types.NewMethodSet(x).Lookup(nil, name); s != nil {
			f := P.SSA.MethodValue(s)
			if f != nil && f.Synthetic != "" {
				if o := P.unwrap(f); o != nil {
					f = o
				}
			}
			return f
		}
	}
	return nil
}

// ruleSigners: every message acts for the account that signs it, with the operation it names.
func ruleSigners(c *Check) {
	const (
		kSign   = "a message is signed by the account that acts"
		kBytes  = "a signature covers the whole message"
		kDoes   = "a message does what it names, for the account that signs it"
		kListed = "every message is known"
	)
	seen := map[string]bool{}
	for _, mm := range c.P.msgMethods() {
		id := mm.Module + "." + mm.Name
		s, ok := msgSpecs[id]
		if !c.oblige(ok && mm.Msg != nil, kListed, id, "a message nobody has looked at") {
			continue
		}
		seen[id] = true
		m := Sym("msg")
		actor := fieldPath(mm.Msg, m, s.actor)
		if !c.oblige(actor != nil, "anchor", id, "no field ", s.actor) {
			continue
		}
		if f := c.P.methodOf(mm.Msg, "GetSigners"); c.oblige(f != nil, "anchor", id, "GetSigners") {
			n, bad := 0, ""
			for _, p := range c.paths(f, []*V{m}, pathOpts{inline: anyRepo, hyp: wellCoded}) {
				if p.O.panic {
					continue
				}
				n++
				if len(p.O.vals) != 1 || p.O.vals[0] != List(actor) {
					bad = fmt.Sprint(p.O.vals)
				}
			}
			c.oblige(n > 0 && bad == "", kSign, id, bad)
		}
		if f := c.P.methodOf(mm.Msg, "GetSignBytes"); c.oblige(f != nil, "anchor", id, "GetSignBytes") {
			n, bad := 0, ""
			for _, p := range c.paths(f, []*V{m}, pathOpts{inline: anyRepo, hyp: wellCoded}) {
				if p.O.panic {
					continue
				}
				n++
				if len(p.O.vals) != 1 || !p.O.vals[0].is("encode") || stripIface(p.O.vals[0].args[0]) != m {
					bad = fmt.Sprint(p.O.vals)
				}
			}
			c.oblige(n > 0 && bad == "", kBytes, id, bad)
		}
		if s.op == "" {
			continue
		}
		op := c.method("x/"+mm.Module+"/keeper", "Keeper", s.op)
		if op == nil {
			continue
		}
		c.handsOver(kDoes, mm.Fn, []*V{Sym("srv"), Sym("ctx"), m}, op, func(a []*V) bool {
			a = a[2:]
			if s.args == "*" {
				return len(a) == 1 && a[0] == m
			}
			w := strings.Fields(s.args)
			if len(a) != len(w) {
				return false
			}
			for i, x := range w {
				var v *V
				switch x {
				case "true", "false":
					v = Bool(x == "true")
				default:
					v = fieldPath(mm.Msg, m, x)
				}
				if v == nil || a[i] != v && !(x == "PubKey" && mention(a[i], v)) {
					return false
				}
			}
			return true
		})
	}
	for id := range msgSpecs {
		c.oblige(seen[id], kListed, id, "not handled")
	}
}

// ruleMalformed: what cannot be meant is refused before it is done.
func ruleMalformed(c *Check) {
	const k = "a malformed message is refused"
	for _, mm := range c.P.msgMethods() {
		id := mm.Module + "." + mm.Name
		s, ok := msgSpecs[id]
		if !ok || mm.Msg == nil {
			continue // ruleSigners reports it
		}
		vb := c.P.methodOf(mm.Msg, "ValidateBasic")
		if !c.oblige(vb != nil, "anchor", id, "ValidateBasic") {
			continue
		}
		m := Sym("msg")
		no := func(what string, hyp func(a *V) (bool, bool)) {
			c.refused(k+": "+what, vb, []*V{m}, pathOpts{inline: anyRepo, unroll: 1, iterOne: true}, hyp)
		}
		// a message that is as it should be
		fine := false
		for _, p := range c.paths(vb, []*V{m}, pathOpts{inline: anyRepo, unroll: 1, iterOne: true, hyp: func(_ *Exec, x *V, _ *State) (bool, bool) {
			if x.is("isnil") && x.args[0].is("badaddr") {
				return true, true
			}
			for _, z := range strings.Fields(s.zero) {
				v := fieldPath(mm.Msg, m, z)
				if v == nil {
					continue
				}
				if r, ok := valueIs(x, v, 1); ok {
					return r, ok
				}
				if mention(x, v) && len(x.args) == 1 {
					switch op := x.op[strings.LastIndexByte(x.op, '.')+1:]; op {
					case "IsPositive", "IsZero", "IsNegative":
						return op == "IsPositive", true
					}
				}
			}
			for _, e := range strings.Fields(s.empty) {
				if r, ok := lenIs(x, fieldPath(mm.Msg, m, e), 1); ok {
					return r, ok
				}
			}
			for _, e := range strings.Fields(s.unset) {
				if x.is("isnil") && x.args[0] == fieldPath(mm.Msg, m, e) {
					return true, true
				}
			}
			return false, false
		}}) {
			fine = fine || p.Ok && !p.O.panic
		}
		c.oblige(fine, "a well-formed message is accepted", id, "never")
		// every field an account is taken from
		accs := map[*V]string{}
		ms := types.NewMethodSet(types.NewPointer(mm.Msg))
		for i := 0; i < ms.Len(); i++ {
			sig := ms.At(i).Type().(*types.Signature)
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 || typeName(sig.Results().At(0).Type()) != "github.com/cosmos/cosmos-sdk/types.AccAddress" {
				continue
			}
			f := c.P.methodOf(mm.Msg, ms.At(i).Obj().Name())
			for _, p := range c.paths(f, []*V{m}, pathOpts{inline: anyRepo, hyp: wellCoded}) {
				if !p.O.panic && p.O.vals[0].hasOp("field:") {
					accs[p.O.vals[0]] = f.Name()
				}
			}
		}
		if a := fieldPath(mm.Msg, m, s.actor); a != nil {
			accs[a] = s.actor
		}
		for a, n := range accs {
			no("no account in "+n, func(x *V) (bool, bool) {
				if x.is("isnil") && x.args[0].is("badaddr") && x.args[0].args[0] == a {
					return false, true
				}
				return false, false
			})
		}
		for _, z := range strings.Fields(s.zero) {
			v := fieldPath(mm.Msg, m, z)
			if c.oblige(v != nil, "anchor", id, z) {
				no(z+" not positive", func(x *V) (bool, bool) { return notPositive(x, v) })
			}
		}
		for _, e := range strings.Fields(s.empty) {
			v := fieldPath(mm.Msg, m, e)
			if c.oblige(v != nil, "anchor", id, e) {
				no("no "+e, func(x *V) (bool, bool) {
					if x.mentions(func(y *V) bool { return y.is("len") && y.args[0] == v }) {
						switch {
						case x.is("eq"):
							return x.args[0] == Int(0) || x.args[1] == Int(0), true
						case x.is("lt"):
							if n, ok := intOf(x.args[1]); ok {
								return 0 < n, true
							}
							if n, ok := intOf(x.args[0]); ok {
								return n < 0, true
							}
						}
					}
					if x.is("isnil") && x.args[0] == v {
						return true, true
					}
					return false, false
				})
			}
		}
		for _, e := range strings.Fields(s.unset) {
			v := fieldPath(mm.Msg, m, e)
			if c.oblige(v != nil, "anchor", id, e) {
				no(e+" set", func(x *V) (bool, bool) {
					if x.is("isnil") && x.args[0] == v {
						return false, true
					}
					return false, false
				})
			}
		}
	}
	// coins sent
	if t := c.P.typeOf("x/bank/types", "MsgSend"); c.oblige(t != nil, "anchor", "bank.MsgSend", "") {
		vb, v := c.P.methodOf(t, "ValidateBasic"), fieldPath(t, Sym("msg"), "Amount")
		for _, q := range []string{"IsValid", "IsAllPositive"} {
			c.refused(k+": coins not "+q, vb, []*V{Sym("msg")}, pathOpts{inline: anyRepo}, func(x *V) (bool, bool) {
				if strings.HasSuffix(x.op, q) && mention(x, v) {
					return false, true
				}
				return false, false
			})
		}
	}
	// updates of a profile
	t := c.P.typeOf("x/profile/types", "MsgUpdateProfile")
	ut := c.P.typeOf("x/profile/types", "MsgUpdateProfile_Update")
	if !c.oblige(t != nil && ut != nil, "anchor", "profile.MsgUpdateProfile", "") {
		return
	}
	vb := c.P.methodOf(t, "ValidateBasic")
	p := c.P.byRel["x/profile/types"].Types.Scope()
	n := 0
	for _, name := range p.Names() {
		kc, ok := p.Lookup(name).(*types.Const)
		if !ok || !strings.HasPrefix(name, "MsgUpdateProfile_Update_FIELD_") || strings.HasSuffix(name, "UNSPECIFIED") {
			continue
		}
		num, _ := constant.Int64Val(kc.Val())
		n++
		u := update(Sym("upd"), FieldSel(ut, 0), Int(num))
		mv := update(Sym("msg"), FieldSel(t, indexOfField(t, "Updates")), List(u))
		right := "x/profile/types.MsgUpdateProfile_Update_Bool"
		if strings.HasSuffix(name, "NICKNAME") {
			right = "x/profile/types.MsgUpdateProfile_Update_String_"
			c.badNicknames(k, vb, mv)
		}
		c.refused(k+": a value not of the kind of "+strings.TrimPrefix(name, "MsgUpdateProfile_Update_"), vb, []*V{mv}, pathOpts{inline: anyRepo, unroll: 2}, func(x *V) (bool, bool) {
			if x.hasOp("typeis:") {
				return !strings.HasSuffix(strings.TrimPrefix(x.op, "typeis:"), right), true
			}
			return false, false
		})
	}
	c.oblige(n >= 7, "anchor", "fields of profiles", n)
}

// badNicknames obliges f to refuse an update to a nickname that is too short, looks like a card number or has a
// character that does not belong.
func (c *Check) badNicknames(k string, f *ssa.Function, m *V) {
	about := func(a *V) bool {
		return a.mentions(func(x *V) bool { return strings.HasPrefix(x.op, "field:") && strings.HasSuffix(x.op, ".String_") })
	}
	hold := func(what string, n int64, h func(a *V) (bool, bool)) {
		c.refused(k+": a nickname "+what, f, []*V{m}, pathOpts{inline: anyRepo, unroll: 2}, func(a *V) (bool, bool) {
			if a.hasOp("typeis:") {
				return strings.HasSuffix(a.op, "_String_"), true
			}
			if b, ok := h(a); ok {
				return b, true
			}
			var l *V
			a.mentions(func(x *V) bool {
				if x.is("len") && about(x) {
					l = x
				}
				return l != nil
			})
			if l == nil {
				if a.is("eq") && (a.args[0] == Str("") || a.args[1] == Str("")) && about(a) {
					return false, true
				}
				return false, false
			}
			return valueIs(a, l, n)
		})
	}
	for n := int64(1); n <= 2; n++ {
		hold(fmt.Sprint("of ", n), n, func(a *V) (bool, bool) { return false, false })
	}
	hold("that begins like a card number", 9, func(a *V) (bool, bool) {
		if strings.HasSuffix(a.op, "strings.HasPrefix") && a.args[1] == Str("ARTR-") && about(a) {
			return true, true
		}
		return false, false
	})
	for _, r := range " */:'\"=[],." {
		r := r
		hold(fmt.Sprintf("with %q", r), 9, func(a *V) (bool, bool) {
			if len(a.args) == 2 && about(a.args[0]) {
				s, ok := strOf(a.args[1])
				switch {
				case strings.HasSuffix(a.op, "strings.ContainsAny") && ok:
					return strings.ContainsRune(s, r), true
				case strings.HasSuffix(a.op, "strings.Contains") && ok:
					return s == string(r), true
				}
			}
			return false, false
		})
	}
}

func indexOfField(t types.Type, name string) int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return 0
}

// notPositive decides comparisons for a number that is zero or less.
func notPositive(x, v *V) (bool, bool) {
	switch {
	case x.is("eq") && (mention(x.args[0], v) && x.args[1] == Int(0) || mention(x.args[1], v) && x.args[0] == Int(0)):
		return true, true
	case strings.HasSuffix(x.op, ".IsPositive") && mention(x, v):
		return false, true
	case x.is("lt") && mention(x.args[1], v):
		if n, ok := intOf(x.args[0]); ok {
			return n < 0, true
		}
	case x.is("lt") && mention(x.args[0], v):
		if n, ok := intOf(x.args[1]); ok {
			return 0 < n, true
		}
	}
	return false, false
}

func init() {
	register("A01", ruleSigners)
	register("A02", ruleMalformed)
}
