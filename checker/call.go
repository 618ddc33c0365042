package main

import (
	"go/types"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func canonName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}

func (x *Exec) call(fr *frame, it *item, in ssa.CallInstruction, d *deferRec) []Outcome {
	c := in.Common()
	x.calls++
	st := it.st
	site := x.siteOf(fr, in, it)
	if d != nil {
		site = rawApp("site", site, Sym("deferred"))
	}
	args := []*V{}
	if d != nil {
		args = append(args, d.args...)
	} else {
		for _, a := range c.Args {
			args = append(args, x.val(fr, it, a))
		}
	}
	ci := &CallInfo{Site: site, Instr: in, Sig: c.Signature(), Ctx: fr}
	if c.IsInvoke() {
		recv := (*V)(nil)
		if d != nil {
			recv = d.invk
		} else {
			recv = x.val(fr, it, c.Value)
		}
		ci.Iface = c.Method
		ci.Args = append([]*V{recv}, args...)
		ci.Name = "invoke:" + typeName(c.Value.Type()) + "." + c.Method.Name()
		// resolve
		if recv.k == KIface {
			if f := x.methodOf(recv.t, c.Method); f != nil {
				ci.Fn = f
				ci.Args[0] = recv.args[0]
				if _, isPtr := f.Signature.Recv().Type().(*types.Pointer); !isPtr {
					if _, vp := recv.t.(*types.Pointer); vp {
						ci.Args[0] = x.load(st, recv.args[0])
					}
				}
			}
		} else {
			impls := x.P.implementations(c.Value.Type().Underlying().(*types.Interface), c.Method)
			if len(impls) == 1 && impls[0].Signature.Recv() != nil {
				ci.Fn = impls[0]
			}
		}
		if ci.Fn != nil {
			ci.Name = canonName(ci.Fn)
		}
		return x.dispatch(ci, st)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return []Outcome{x.builtin(b, args, st, ci, in)}
	}
	var fv *V
	if d != nil {
		fv = d.fn
	} else {
		fv = x.val(fr, it, c.Value)
	}
	ci.Args = args
	if fv.k == KFunc {
		ci.Fn = fv.fn
		ci.Name = canonName(fv.fn)
		return x.dispatchFn(ci, fv.args, st)
	}
	ci.Name = "dynamic:" + fv.str(4)
	ci.Args = append([]*V{fv}, args...)
	return x.dispatch(ci, st)
}

func (x *Exec) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := x.P.SSA.FuncValue(sel.Obj().(*types.Func))
	return f
}

func (x *Exec) dispatch(ci *CallInfo, st *State) []Outcome { return x.dispatchFn(ci, nil, st) }

func (x *Exec) dispatchFn(ci *CallInfo, bind []*V, st *State) []Outcome {
	if x.C.OnCall != nil {
		if ok, outs := x.C.OnCall(x, ci, st); ok {
			return outs
		}
	}
	f := ci.Fn
	if f != nil && f.Synthetic != "" && f.Blocks != nil && (strings.HasPrefix(f.Synthetic, "wrapper") || strings.HasPrefix(f.Synthetic, "bound") || strings.HasPrefix(f.Synthetic, "thunk")) {
		if x.onStack(f) < 3 {
			return x.exec(f, ci.Args, bind, st, ci.Site, ci.Ctx)
		}
	}
	if f != nil {
		if v, ok := intrinsic(x, ci, st); ok {
			return []Outcome{{vals: v, st: st}}
		}
		if f.Blocks != nil && x.P.isRepoFn(f) && x.inline(f) && x.onStack(f) == 0 && len(x.stack) < x.C.Depth {
			return x.exec(f, ci.Args, bind, st, ci.Site, ci.Ctx)
		}
	} else if v, ok := intrinsic(x, ci, st); ok {
		return []Outcome{{vals: v, st: st}}
	}
	return []Outcome{x.Opaque(ci, st)}
}

func (x *Exec) onStack(f *ssa.Function) int {
	n := 0
	for _, s := range x.stack {
		if s == f {
			n++
		}
	}
	return n
}

func (x *Exec) inline(f *ssa.Function) bool {
	if isGenerated(x.P, f) {
		return strings.HasPrefix(f.Name(), "Get")
	}
	if isFractionMethod(f) || isPureRepo(f) {
		return false
	}
	if x.C.Inline != nil {
		return x.C.Inline(f)
	}
	return true
}

func isGenerated(P *Program, f *ssa.Function) bool {
	if !f.Pos().IsValid() {
		return false
	}
	fn := P.Fset.Position(f.Pos()).Filename
	return strings.HasSuffix(fn, ".pb.go") || strings.HasSuffix(fn, ".pb.gw.go")
}

func isFractionMethod(f *ssa.Function) bool {
	if fnPkgPath(f) != modPath+"/util" {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		return strings.HasSuffix(typeName(r.Type()), "util.Fraction")
	}
	s := f.Signature.Results()
	return s.Len() >= 1 && strings.HasSuffix(typeName(s.At(0).Type()), "util.Fraction") && s.Len() == 1
}

func isPureRepo(f *ssa.Function) bool {
	switch canonName(f) {
	case "util.EmitEvent", "util.EmitEvents", "util.TagTx":
		return true
	case "util.CalculateFee", "util.SplitFee", "util.CalculateTransactionFeeSplitRatiosLCM":
		return true
	}
	return false
}

var readonlyRe = regexp.MustCompile(`^(TagTx|Marshal|MustMarshal|ProtoMarshal|Size|String|Get[A-Z]|Get$|Log|Debug|Info|Error|Emit|Sprint|Wrap|Errorf|New|With|Equal|Has|Is[A-Z]|KVStore|Delete|Set$|Len|Iterator|Valid|Next|Close|Key|Value|Pack|Unwrap|Register|Schedule|Print|Add|Sub|Mul|GT|LT|Slice|Sort)`)

// Opaque is the effect of a call that is not analysed: the results are unknown values of this call site, memory
// reachable through pointer arguments is forgotten unless the callee only reads it.
func (x *Exec) Opaque(ci *CallInfo, st *State) Outcome {
	x.opaque[ci.Name]++
	snaps := []*V{}
	for _, a := range ci.Args {
		snaps = append(snaps, x.snap(st, a))
	}
	pure := isPure(ci)
	targs := snaps
	if !pure {
		targs = append(append([]*V{}, snaps...), ci.Site)
	}
	base := "call:" + ci.Name
	short := ci.Name[strings.LastIndexByte(ci.Name, '.')+1:]
	if (short == "Get" || short == "GetIfExists") && strings.Contains(strings.ToLower(ci.Name), "subspace") {
		// a parameter read into a variable
		x.havoc(st, ci.Args[len(ci.Args)-1], "param", snaps[len(snaps)-2:len(snaps)-1])
	} else if !pure && !readonlyRe.MatchString(short) {
		for i, a := range ci.Args {
			x.havoc(st, a, "out:"+ci.Name+":"+strconv.Itoa(i), targs)
		}
	}
	res := ci.Sig.Results()
	vals := []*V{}
	for i := 0; i < res.Len(); i++ {
		op := base
		if res.Len() > 1 {
			op += "#" + strconv.Itoa(i)
		}
		vals = append(vals, rawApp(op, targs...))
	}
	return Outcome{vals: vals, st: st}
}

func (x *Exec) havoc(st *State, a *V, op string, targs []*V) {
	a0 := stripIface(a)
	switch a0.k {
	case KAddr:
		x.store(st, a0, rawApp(op, targs...))
	case KFunc:
		for i, b := range a0.args {
			if b.k == KAddr && writesFreeVar(a0.fn, i, 4) {
				x.store(st, b, rawApp(op+"."+strconv.Itoa(i), targs...))
			}
		}
	case KApp, KSym:
		if _, ok := st.mem[a0]; ok && !a0.is("makemap") {
			st.mem[a0] = rawApp(op, targs...)
		}
	}
}

var purePkgs = map[string]bool{"strings": true, "bytes": true, "math": true, "math/big": true, "strconv": true, "unicode": true, "unicode/utf8": true,
	"encoding/binary": true, "encoding/hex": true, "errors": true, "github.com/pkg/errors": true, "fmt": true, "regexp": true, "time": true, "encoding/base64": true,
	"github.com/cosmos/cosmos-sdk/types/errors": true, "path": true, "reflect": true}

var impureSDK = regexp.MustCompile(`\.(EventManager|EmitEvent|EmitTypedEvent|CacheContext|GetConfig|KVStore|TransientStore|Unmarshal\w*|MustUnmarshal\w*|GasMeter|Now|Read\w*|Scan\w*|Fscan\w*)$`)

func isPure(ci *CallInfo) bool {
	f := ci.Fn
	if f == nil {
		n := ci.Name
		switch {
		case strings.HasSuffix(n, ".Error"), strings.HasSuffix(n, ".String"):
			return strings.HasPrefix(n, "invoke:")
		case strings.HasPrefix(n, "invoke:github.com/cosmos/cosmos-sdk/crypto/types.PubKey"):
			return true
		case strings.HasPrefix(n, "invoke:error."):
			return true
		}
		return false
	}
	if isFractionMethod(f) || (isPureRepo(f) && f.Signature.Results().Len() > 0) {
		return true
	}
	p := fnPkgPath(f)
	n := canonName(f)
	if impureSDK.MatchString(n) {
		return false
	}
	if purePkgs[p] {
		return true
	}
	if p == "github.com/cosmos/cosmos-sdk/types" {
		return true
	}
	if p == "github.com/cosmos/cosmos-sdk/store/prefix" && f.Name() == "NewStore" {
		return true
	}
	return false
}

const sdkT = "github.com/cosmos/cosmos-sdk/types."

// intrinsic gives a meaning to the calls whose meaning the rules need: identity conversions, comparisons, integer and
// coin arithmetic, error wrapping, (un)marshalling, parameter sets.
func intrinsic(x *Exec, ci *CallInfo, st *State) ([]*V, bool) {
	one := func(v *V) ([]*V, bool) { return []*V{v}, true }
	a := ci.Args
	n := ci.Name
	if ci.Fn == nil {
		if i := strings.LastIndexByte(n, '.'); i >= 0 && strings.HasPrefix(n, "invoke:") {
			m := n[i+1:]
			t := n[len("invoke:"):i]
			switch {
			case strings.Contains(t, "codec.") || strings.HasSuffix(t, "BinaryMarshaler") || strings.HasSuffix(t, "JSONMarshaler"):
				switch {
				case strings.HasPrefix(m, "MustUnmarshal") || strings.HasPrefix(m, "Unmarshal"):
					if len(a) >= 3 {
						p := a[2]
						x.store(st, stripIface(p), decoded(x.snap(st, a[1])))
						if ci.Sig.Results().Len() == 1 {
							return one(rawApp("call:"+n, x.snap(st, a[1]), ci.Site))
						}
						return []*V{}, true
					}
				case strings.HasPrefix(m, "MustMarshal"):
					return one(rawApp("encode", x.snap(st, a[1])))
				case strings.HasPrefix(m, "Marshal"):
					return []*V{rawApp("encode", x.snap(st, a[1])), rawApp("call:"+n, x.snap(st, a[1]), ci.Site)}, true
				}
			case m == "GetModuleAddress" && len(a) >= 2:
				return one(rawApp("moduleaddr", x.snap(st, a[len(a)-1])))
			case m == "GetModuleAccount" && len(a) >= 3:
				return one(rawApp("moduleacc", x.snap(st, a[len(a)-1])))
			case m == "GetAddress" && len(a) == 1 && x.snap(st, a[0]).is("moduleacc"):
				return one(rawApp("moduleaddr", x.snap(st, a[0]).args[0]))
			case m == "GetParamSet" && len(a) >= 3:
				x.store(st, stripIface(a[2]), rawApp("params:"+dynTypeName(a[2]), ci.Site))
				return []*V{}, true
			}
		}
		return nil, false
	}
	pk := fnPkgPath(ci.Fn)
	switch {
	case strings.HasPrefix(n, sdkT) || strings.HasPrefix(n, "("+sdkT) || strings.HasPrefix(n, "(*"+sdkT):
		return sdkIntrinsic(x, ci, st)
	case pk == "github.com/cosmos/cosmos-sdk/x/params/types":
		if ci.Fn.Name() == "GetParamSet" && len(a) >= 3 {
			x.store(st, stripIface(a[2]), rawApp("params:"+dynTypeName(a[2]), ci.Site))
			return []*V{}, true
		}
	case pk == "github.com/pkg/errors" || pk == "github.com/cosmos/cosmos-sdk/types/errors" || pk == "errors" || pk == "google.golang.org/grpc/status":
		switch ci.Fn.Name() {
		case "Wrap", "Wrapf", "WithMessage", "WithMessagef", "WithStack", "Cause", "Unwrap":
			// an error wrapping another is nil exactly when that one is
			e := stripErr(a[0])
			if ci.Fn.Signature.Recv() != nil {
				return one(rawApp("err:wrap", e))
			}
			if nn, ok := x.isNil(st, a[0]); ok {
				if nn {
					return one(vNil)
				}
				return one(rawApp("err:wrap", e))
			}
			return one(a[0])
		case "New", "Errorf", "Register", "Error":
			if ci.Fn.Signature.Results().Len() == 1 && ci.Fn.Signature.Recv() == nil {
				return one(rawApp("err:new", ci.Site))
			}
		}
	case n == "fmt.Errorf":
		return one(rawApp("err:new", ci.Site))
	case pk == "strings" && len(a) >= 1 && len(a) <= 2:
		if r := foldString(ci.Fn.Name(), a); r != nil {
			return one(r)
		}
	case pk == "encoding/binary" && strings.HasPrefix(ci.Fn.Name(), "Put") && len(a) >= 2:
		to := stripIface(a[len(a)-2])
		num := rawApp(bytesOp(ci.Fn), x.snap(st, a[len(a)-1]))
		if was := x.snap(st, x.load(st, to)); was.is("copied") { // behind what has been copied to the beginning
			num = rawApp("copied", was, num)
		}
		x.store(st, to, num)
		if ci.Sig.Results().Len() == 1 {
			return one(rawApp("putlen", ci.Site))
		}
		return []*V{}, true
	case pk == "encoding/binary" && strings.HasPrefix(ci.Fn.Name(), "Uint") && len(a) == 2:
		if v := x.snap(st, a[1]); v.is(bytesOp(ci.Fn)) {
			return one(v.args[0])
		}
	case n == "bytes.Equal":
		return one(mkEq(x.snap(st, a[0]), x.snap(st, a[1])))
	case pk == "time":
		switch {
		case n == "(time.Time).After":
			return one(mkLt(a[1], a[0]))
		case n == "(time.Time).Before":
			return one(mkLt(a[0], a[1]))
		case n == "(time.Time).Equal":
			return one(mkEq(a[0], a[1]))
		case n == "(time.Time).UTC":
			return one(a[0])
		}
	case pk == "sort":
		// sorting permutes the elements: the slice's contents keep their provenance
		return []*V{}, len(a) > 0 && ci.Sig.Results().Len() == 0
	case strings.HasSuffix(n, "proto.Unmarshal") && len(a) == 2:
		x.store(st, stripIface(a[1]), decoded(x.snap(st, a[0])))
		return one(rawApp("call:"+n, x.snap(st, a[0]), ci.Site))
	case strings.HasSuffix(n, "proto.Marshal") && len(a) == 1:
		return []*V{rawApp("encode", x.snap(st, a[0])), rawApp("call:"+n, x.snap(st, a[0]), ci.Site)}, true
	}
	if isGenerated(x.P, ci.Fn) && ci.Fn.Signature.Recv() != nil && x.P.isRepoFn(ci.Fn) {
		switch ci.Fn.Name() {
		case "Unmarshal":
			x.store(st, stripIface(a[0]), decoded(x.snap(st, a[1])))
			return one(rawApp("call:"+n, x.snap(st, a[1]), ci.Site))
		case "Marshal":
			return []*V{rawApp("encode", x.snap(st, a[0])), rawApp("call:"+n, x.snap(st, a[0]), ci.Site)}, true
		}
	}
	return nil, false
}

// decoded is the value of which v is the encoding.
func decoded(v *V) *V {
	if v.is("encode") {
		return v.args[0]
	}
	return rawApp("decode", v)
}

func stripErr(v *V) *V { return v }

func dynTypeName(v *V) string {
	if v.k == KIface {
		return typeName(v.t)
	}
	return "?"
}

func sdkIntrinsic(x *Exec, ci *CallInfo, st *State) ([]*V, bool) {
	one := func(v *V) ([]*V, bool) { return []*V{v}, true }
	a := ci.Args
	n := strings.NewReplacer("("+sdkT, "(", "(*"+sdkT, "(*", sdkT, "").Replace(ci.Name)
	s := func(i int) *V { return x.snap(st, a[i]) }
	switch n {
	case "AccAddressFromBech32", "ValAddressFromBech32", "ConsAddressFromBech32", "GetPubKeyFromBech32":
		if n == "GetPubKeyFromBech32" {
			return []*V{rawApp("pubkey", s(1)), rawApp("badpubkey", s(1))}, true
		}
		return []*V{s(0), rawApp("badaddr", s(0))}, true
	case "(AccAddress).String", "(AccAddress).Bytes", "(ConsAddress).Bytes", "(ValAddress).Bytes":
		return one(s(0))
	case "(AccAddress).Equals", "(ConsAddress).Equals", "(ValAddress).Equals":
		return one(mkEq(s(0), stripIface(s(1))))
	case "(AccAddress).Empty":
		return one(rawApp("emptyaddr", s(0)))
	case "UnwrapSDKContext":
		return one(a[0])
	case "WrapSDKContext":
		return one(a[0])
	case "(Context).BlockTime":
		return one(rawApp("blocktime"))
	case "(Context).BlockHeight":
		return one(rawApp("blockheight"))
	case "(Context).KVStore":
		return one(rawApp("kvstore", s(1)))
	case "(Context).WithEventManager", "(Context).WithBlockTime", "(Context).WithContext":
		return one(a[0])
	case "NewInt", "NewIntFromUint64", "NewDec", "NewUint", "NewIntFromBigInt":
		return one(s(0))
	case "ZeroInt", "ZeroDec":
		return one(Int(0))
	case "OneInt":
		return one(Int(1))
	case "(Int).Int64", "(Int).Uint64", "(Int).BigInt", "(Int).ToDec":
		return one(s(0))
	case "(Int).Add", "(Int).AddRaw":
		return one(App("bin:+", s(0), s(1)))
	case "(Int).Sub", "(Int).SubRaw":
		return one(App("bin:-", s(0), s(1)))
	case "(Int).Mul", "(Int).MulRaw":
		return one(App("bin:*", s(0), s(1)))
	case "(Int).Quo", "(Int).QuoRaw":
		return one(App("bin:/", s(0), s(1)))
	case "(Int).Mod", "(Int).ModRaw":
		return one(App("bin:%", s(0), s(1)))
	case "(Int).Neg":
		return one(App("bin:-", Int(0), s(0)))
	case "(Int).GT":
		return one(mkLt(s(1), s(0)))
	case "(Int).LT":
		return one(mkLt(s(0), s(1)))
	case "(Int).GTE":
		return one(App("not", mkLt(s(0), s(1))))
	case "(Int).LTE":
		return one(App("not", mkLt(s(1), s(0))))
	case "(Int).Equal":
		return one(mkEq(s(0), s(1)))
	case "(Int).IsZero":
		return one(mkEq(s(0), Int(0)))
	case "(Int).IsNegative":
		return one(mkLt(s(0), Int(0)))
	case "(Int).IsPositive":
		return one(mkLt(Int(0), s(0)))
	case "NewCoin", "NewInt64Coin":
		return one(rawApp("coin", s(0), s(1)))
	case "NewCoins":
		if len(a) == 1 {
			v := s(0)
			if v.k == KNil {
				v = List()
			}
			if v.k != KList { // variadic pass-through: sorting and checking only
				return one(v)
			}
			return one(rawApp("coins", v.args...))
		}
	case "(Coins).Add":
		return one(rawApp("coins+", s(0), listOf(s(1))))
	case "(Coins).Sub":
		return one(rawApp("coins-", s(0), listOf(s(1))))
	case "(Coins).AmountOf":
		return one(amountOf(s(0), s(1)))
	case "(Coins).Empty", "(Coins).IsZero":
		return one(coinsZero(s(0)))
	}
	return nil, false
}

func listOf(v *V) *V { return v }

func amountOf(c, d *V) *V {
	switch {
	case c.is("coins") || c.k == KList:
		for _, e := range c.args {
			if e.is("coin") && e.args[0] == d {
				return e.args[1]
			}
		}
	}
	return rawApp("amountof", c, d)
}

func (x *Exec) builtin(b *ssa.Builtin, args []*V, st *State, ci *CallInfo, in ssa.CallInstruction) Outcome {
	ret := func(v *V) Outcome { return Outcome{vals: []*V{v}, st: st} }
	switch b.Name() {
	case "len":
		v := x.contents(st, args[0])
		if v.is("makeslice") {
			return ret(v.args[0])
		}
		if v.k == KStruct {
			// element writes do not change the length
			for v.k == KStruct {
				v = v.args[0]
			}
			if v.is("makeslice") {
				return ret(v.args[0])
			}
		}
		if v.k == KZero {
			if at, ok := v.t.Underlying().(*types.Array); ok {
				return ret(Int(at.Len()))
			}
		}
		return ret(App("len", v))
	case "cap":
		return ret(rawApp("cap", args[0]))
	case "append":
		base := args[0]
		if base.k == KAddr {
			base = x.load(st, base)
		} else if m, ok := st.mem[base]; ok {
			base = m
		}
		if base.k == KNil {
			base = List()
		}
		if base.is("copy") {
			base = base.args[0]
		}
		more := args[1]
		more = x.contents(st, more)
		if more.is("copy") {
			more = more.args[0]
		}
		if more.k == KNil {
			return ret(base)
		}
		if more.k == KList {
			if base.k == KList && len(base.args)+len(more.args) <= 128 {
				return ret(List(append(append([]*V{}, base.args...), more.args...)...))
			}
			if base.is("append") {
				return ret(rawApp("append", append(append([]*V{}, base.args...), more.args...)...))
			}
			return ret(rawApp("append", append([]*V{base}, more.args...)...))
		}
		if s, ok := strOf(more); ok && s == "" {
			return ret(base)
		}
		if base.k == KList && len(base.args) == 0 {
			return ret(more) // a copy
		}
		return ret(rawApp("concat", base, more))
	case "copy":
		dst, src := args[0], x.contents(st, args[1])
		view := st.ev["view"]
		delete(st.ev, "view")
		if view == nil {
			view = rawApp("view", dst, vNil)
		}
		if base := x.contents(st, view.args[0]); base.k == KList || base.is("copy") && base.args[0].k == KList {
			if base.k != KList {
				base = base.args[0]
			}
			if src.is("copy") {
				src = src.args[0]
			}
			lo, ok := intOf(view.args[1])
			if view.args[1] == vNil {
				lo, ok = 0, true
			}
			if ok && src.k == KList && lo >= 0 && int(lo) <= len(base.args) && (dst.k == KAddr || dst.k == KList) {
				es := append([]*V{}, base.args...)
				n := copy(es[lo:], src.args)
				if view.args[0].k == KAddr {
					x.store(st, view.args[0], List(es...))
				} else {
					st.mem[view.args[0]] = List(es...)
				}
				return ret(Int(int64(n)))
			}
		}
		if dst.k == KAddr {
			x.store(st, dst, rawApp("copied", x.load(st, dst), x.snap(st, src)))
		}
		return ret(rawApp("ncopied", ci.Site))
	case "delete":
		m := args[0]
		cur, ok := st.mem[m]
		if !ok {
			cur = m
		}
		st.mem[m] = rawApp("mapdel", cur, args[1])
		return Outcome{st: st}
	case "recover":
		if st.rec {
			st.rec = false
			return ret(rawApp("err:recovered", ci.Site))
		}
		return ret(vNil)
	case "panic":
		return Outcome{panic: true, st: st}
	case "min", "max":
		return ret(rawApp(b.Name(), args...))
	}
	if ci.Sig != nil && ci.Sig.Results().Len() > 0 {
		return ret(rawApp("builtin:"+b.Name(), ci.Site))
	}
	return Outcome{st: st}
}

var _ = filepath.Base

// coinsZero: no coins at all. A single coin is nothing exactly when its amount is zero.
func coinsZero(v *V) *V {
	v = stripIface(v)
	if (v.is("coins") || v.k == KList) && len(v.args) == 1 && v.args[0].is("coin") {
		return mkEq(v.args[0].args[1], Int(0))
	}
	if (v.is("coins") || v.k == KList) && len(v.args) == 0 || v.k == KNil {
		return Bool(true)
	}
	return rawApp("coinszero", v)
}

// writesFreeVar tells whether a closure may write the variable it captured at position i.
func writesFreeVar(f *ssa.Function, i, d int) bool {
	if d == 0 || i >= len(f.FreeVars) || f.Blocks == nil {
		return true
	}
	var esc func(v ssa.Value) bool
	esc = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if esc(r) {
					return true
				}
			case *ssa.IndexAddr:
				if esc(r) {
					return true
				}
			case *ssa.MakeClosure:
				for j, b := range r.Bindings {
					if b == v && writesFreeVar(r.Fn.(*ssa.Function), j, d-1) {
						return true
					}
				}
			default:
				return true
			}
		}
		return false
	}
	return esc(f.FreeVars[i])
}

// foldString is what a function of package strings gives for constants.
func foldString(name string, a []*V) *V {
	s, ok := strOf(a[0])
	if !ok {
		return nil
	}
	if len(a) == 1 {
		switch name {
		case "TrimSpace":
			return Str(strings.TrimSpace(s))
		case "ToLower":
			return Str(strings.ToLower(s))
		case "ToUpper":
			return Str(strings.ToUpper(s))
		case "ToTitle":
			return Str(strings.ToTitle(s))
		}
		return nil
	}
	t, ok := strOf(a[1])
	if !ok {
		return nil
	}
	switch name {
	case "HasPrefix":
		return Bool(strings.HasPrefix(s, t))
	case "HasSuffix":
		return Bool(strings.HasSuffix(s, t))
	case "Contains":
		return Bool(strings.Contains(s, t))
	case "EqualFold":
		return Bool(strings.EqualFold(s, t))
	case "Compare":
		return Int(int64(strings.Compare(s, t)))
	case "TrimPrefix":
		return Str(strings.TrimPrefix(s, t))
	case "TrimSuffix":
		return Str(strings.TrimSuffix(s, t))
	case "Trim":
		return Str(strings.Trim(s, t))
	}
	return nil
}

// bytesOp: a number written with its lowest byte first is another sequence of bytes.
func bytesOp(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil && strings.Contains(strings.ToLower(r.Type().String()), "little") {
		return "bytesofLE"
	}
	return "bytesof"
}
