package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const nodT = "x/noding/types"

func init() {
	register("N01", ruleNodingGate)
	register("N02", ruleNodingJail)
	register("N03", ruleLottery)
	register("N04", ruleValidatorSet)
}

// nodMachine: the records of validators and their index.
type nodMachine struct {
	c          *Check
	info       types.Type
	data, idx  *kvMachine
	qual       *ssa.Function // IsQualified
	qualified  bool          // whether accounts (not being staff) are qualified
	operator   *V            // who is recorded as the operator of any key
	pOper, pLo *V            // prefixes of the index
	params     map[string]*V // parameters, where not symbolic
	delegation *V
	announced bool
}

// keyNum is the number which a key of an index ends with.
func keyNum(v *V) *V {
	switch {
	case v.is("slice"):
		return keyNum(v.args[0])
	case v.is("copied"):
		return keyNum(v.args[1])
	case v.is("key"):
		return keyNum(v.args[len(v.args)-1])
	case v.is("bytesof"):
		return v.args[0]
	case v.is("makeslice"):
		return Int(0)
	}
	return nil
}

// keyPrefix is the global which the key begins with.
func keyPrefix(v *V) *V {
	if ps := keyParts(v); len(ps) > 0 && ps[0].hasOp("global:") {
		return ps[0]
	}
	return nil
}

func (c *Check) nodMachine() *nodMachine {
	m := &nodMachine{c: c, info: c.P.typeOf(nodT, "Info"), qual: c.method(nodK, "Keeper", "IsQualified"), operator: vNil, params: map[string]*V{}, delegation: Sym("stake")}
	if !c.oblige(m.info != nil && m.qual != nil, "anchor", "records of validators", "") {
		return nil
	}
	for _, n := range []string{"Status", "LastPower", "PubKey", "LastPubKey", "Strokes", "OkBlocksInRow", "MissedBlocksInRow", "Jailed", "UnjailAt", "ProposedCount", "JailCount", "LotteryNo", "Score", "Infractions", "BannedForLife", "Staff"} {
		if !c.oblige(fieldVal(Sym("r"), m.info, n) != nil, "anchor", "Info."+n, "") {
			return nil
		}
	}
	g := func(n string) *V {
		if c.P.pkg(nodK) == nil || c.P.pkg(nodK).Var(n) == nil {
			c.oblige(false, "anchor", nodK+"."+n, "")
			return Sym("?" + n)
		}
		return rawApp("global:" + nodK + "." + n)
	}
	m.pOper, m.pLo = g("IdxPrefixNodeOperator"), g("IdxPrefixLotteryQueue")
	m.data = &kvMachine{c: c, store: "noding", init: map[*V]*V{}, def: func(k *V) *V { return vNil }}
	m.idx = &kvMachine{c: c, store: "noding-index", init: map[*V]*V{}, num: func(k *V) (int64, bool) {
		if keyPrefix(k) == m.pLo && keyNum(k) != nil {
			return intOf(keyNum(k))
		}
		return 0, false
	}, def: func(k *V) *V {
		if keyPrefix(k) == m.pOper {
			return m.operator
		}
		return nil
	}}
	return m
}

func (m *nodMachine) set(rec *V, kv ...interface{}) *V {
	s := m.info.Underlying().(*types.Struct)
	for i := 0; i+1 < len(kv); i += 2 {
		for j := 0; j < s.NumFields(); j++ {
			if s.Field(j).Name() == kv[i].(string) {
				v, ok := kv[i+1].(*V)
				if !ok {
					switch x := kv[i+1].(type) {
					case bool:
						v = Bool(x)
					case int:
						v = Int(int64(x))
					case string:
						v = Str(x)
					}
				}
				rec = update(rec, FieldSel(m.info, j), v)
			}
		}
	}
	return rec
}

func (m *nodMachine) get(rec *V, f string) *V { return fieldVal(rec, m.info, f) }

func (m *nodMachine) isTrue(rec *V, f string) bool {
	b, ok := boolOf(m.get(rec, f))
	return ok && b
}

func (m *nodMachine) active(rec *V) bool {
	return m.isTrue(rec, "Status") && !m.isTrue(rec, "Jailed") && !m.isTrue(rec, "BannedForLife")
}

// queueKey is the key of a number of the lottery queue, as the code makes it.
func (m *nodMachine) queueKey(n int64) *V {
	return rawApp("key", m.pLo, rawApp("bytesof", Int(n)))
}

func (m *nodMachine) put(acc, rec *V) {
	if m.data.init[acc] == nil {
		m.data.order = append(m.data.order, acc)
	}
	m.data.init[acc] = rawApp("encode", rec)
}

func (m *nodMachine) queue(q map[int64]*V) {
	for k := range m.idx.init {
		delete(m.idx.init, k)
	}
	m.idx.order = nil
	ns := []int64{}
	for n := range q {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
	for _, n := range ns {
		k := m.queueKey(n)
		m.idx.init[k] = q[n]
		m.idx.order = append(m.idx.order, k)
	}
}

// rec is the record of the account at the end of the path (nil: none).
func (m *nodMachine) rec(st *State, acc *V) *V {
	v := m.data.at(st, acc)
	if v == nil || !v.is("encode") {
		return nil
	}
	return v.args[0]
}

// queueAt is the lottery queue at the end of a path.
func (m *nodMachine) queueAt(st *State) (q map[int64]*V, bad string) {
	q = map[int64]*V{}
	for _, k := range m.idx.all(st) {
		if keyPrefix(k) != m.pLo {
			continue
		}
		n, ok := intOf(keyNum(k))
		if !ok || q[n] != nil {
			bad = "an entry of the queue is " + k.str(6)
			continue
		}
		q[n] = m.idx.at(st, k)
	}
	return
}

func (m *nodMachine) opts(hyp func(a *V) (bool, bool)) pathOpts {
	own := samePkgOf(modPath + "/" + nodK)
	return pathOpts{inline: func(f *ssa.Function) bool { return own(f) && !m.c.numeric(f) }, unroll: 3, limit: 2000, outLimit: 2000, announced: m.announced,
		watchI: func(ci *CallInfo) bool { return m.c.bankCalls(ci) || inPkg(schedK)(ci) },
		onCall: machines(m.call, m.data.call, m.idx.call),
		hyp: func(x *Exec, a *V, st *State) (bool, bool) {
			if hyp != nil {
				if v, ok := hyp(a); ok {
					return v, ok
				}
			}
			return wellCoded(x, a, st)
		}}
}

func (m *nodMachine) call(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
	switch {
	case ci.Fn != nil && ci.Fn == m.qual:
		q := m.qualified
		acc := stripIface(x.snap(st, ci.Args[2]))
		if r := m.rec(st, acc); r != nil && m.isTrue(r, "Staff") {
			q = true
		}
		addTrace(st, Ev{Kind: "qualified?", Args: []*V{acc, Bool(q)}, At: ci.Instr})
		return true, []Outcome{{vals: []*V{Bool(q), m.delegation, Sym("reason"), vNil}, st: st}}
	case ci.Fn != nil && fnPkgPath(ci.Fn) == "encoding/binary" && strings.HasPrefix(ci.Fn.Name(), "Uint") && len(ci.Args) == 2:
		if n := keyNum(x.snap(st, ci.Args[1])); n != nil {
			return true, []Outcome{{vals: []*V{n}, st: st}}
		}
	case ci.Fn != nil && ci.Fn.Name() == "GetParams" && fnPkgPath(ci.Fn) == modPath+"/"+nodK && len(m.params) > 0:
		pt := m.c.P.typeOf(nodT, "Params")
		p := Sym("params")
		s := pt.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if v := m.params[s.Field(i).Name()]; v != nil {
				p = update(p, FieldSel(pt, i), v)
			}
		}
		return true, []Outcome{{vals: []*V{p}, st: st}}
	case isEmit(ci):
		addTrace(st, Ev{Kind: "emit", Args: snapAll(x, st, ci.Args[1:]), At: ci.Instr})
		return true, []Outcome{{st: st}}
	}
	return false, nil
}

func isEmit(ci *CallInfo) bool {
	return ci.Fn != nil && ci.Fn.Name() == "EmitEvent" && fnPkgPath(ci.Fn) == modPath+"/util"
}

// emitted counts the events of a type.
func (p *Path) emitted(typ string) int {
	n := 0
	for _, e := range p.Ev {
		if e.Kind == "emit" {
			for _, a := range e.Args {
				if a.k == KIface && strings.HasSuffix(typeName(a.t), "."+typ) {
					n++
				}
			}
		}
	}
	return n
}

// nodOps are the operations which change records: the exported methods of the keeper from which a write is reached.
func (m *nodMachine) ops() map[string]*ssa.Function {
	c := m.c
	w := map[*ssa.Function]bool{}
	for _, o := range c.P.storeOps() {
		if o.Store["noding"] && (o.Op == "Set" || o.Op == "Delete") {
			w[o.Fn] = true
		}
	}
	r := map[string]*ssa.Function{}
	reach := c.P.reaching(w)
	for _, f := range c.P.Funcs {
		if reach[f] && fnPkgPath(f) == modPath+"/"+nodK && f.Signature.Recv() != nil && f.Synthetic == "" && f.Object() != nil && f.Object().Exported() && typeName(deref(f.Signature.Recv().Type())) == nodK+".Keeper" {
			r[f.Name()] = f
		}
	}
	return r
}

func (m *nodMachine) args(f *ssa.Function, acc *V) []*V {
	a := []*V{Sym("k")}
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		switch {
		case strings.HasSuffix(typeName(ps.At(i).Type()), "types.AccAddress"):
			a = append(a, acc)
		case strings.HasSuffix(typeName(ps.At(i).Type()), "types.Context"):
			a = append(a, Sym("ctx"))
		default:
			a = append(a, Sym("arg"+itoa(i)))
		}
	}
	return a
}

var genesisOnly = map[string]bool{"SetActiveValidators": true, "SetNonActiveValidators": true}

// nodCase is the record of the account before an operation.
type nodCase struct {
	status, jailed, banned, staff, qual bool
	lot                                 int
	infr                                int
}

func (n nodCase) String() string {
	s := []string{}
	for _, x := range []struct {
		b bool
		s string
	}{{n.status, "on"}, {!n.status, "off"}, {n.jailed, "jailed"}, {n.banned, "banned"}, {n.staff, "staff"}, {n.qual, "qualified"}, {n.lot != 0, "in the queue"}, {n.infr > 0, "once byzantine"}} {
		if x.b {
			s = append(s, x.s)
		}
	}
	return strings.Join(s, ", ")
}

func nodCases() (r []nodCase) {
	for b := 0; b < 128; b++ {
		n := nodCase{status: b&1 != 0, jailed: b&2 != 0, banned: b&4 != 0, staff: b&8 != 0, qual: b&16 != 0, infr: b >> 6 & 1}
		if b&32 != 0 {
			n.lot = 5
		}
		if n.lot != 0 && (!n.status || n.jailed || n.banned) || n.banned && n.status {
			continue
		}
		r = append(r, n)
	}
	return
}

// load puts the account into the state, among others.
func (m *nodMachine) load(n nodCase, acc *V) (rec *V) {
	inf := List()
	if n.infr > 0 {
		inf = List(Sym("evidence0"))
	}
	rec = m.set(rawApp("rec", acc), "Status", n.status, "Jailed", n.jailed, "BannedForLife", n.banned, "Staff", n.staff, "LotteryNo", n.lot, "Infractions", inf)
	m.data.init, m.data.order = map[*V]*V{}, nil
	m.put(acc, rec)
	q := map[int64]*V{3: Sym("first"), 9: Sym("last")}
	if n.lot != 0 {
		q[int64(n.lot)] = acc
	}
	m.queue(q)
	m.qualified = n.qual
	return
}

// eachOp runs every operation in every case.
func (m *nodMachine) eachOp(do func(name string, f *ssa.Function, n nodCase, rec *V, p *Path)) (runs int) {
	acc := Sym("acc")
	ops := m.ops()
	names := []string{}
	for n := range ops {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		if genesisOnly[name] || name == "GatherValidatorUpdates" {
			continue
		}
		f := ops[name]
		for _, n := range nodCases() {
			rec := m.load(n, acc)
			ok := 0
			for _, p := range m.c.paths(f, m.args(f, acc), m.opts(nil)) {
				if p.O.panic {
					continue
				}
				if p.ok() {
					ok++
				}
				do(name, f, n, rec, p)
			}
			if ok > 0 {
				runs++
			}
		}
	}
	return
}

// fieldOps: which operations may change which field of a record.
var fieldOps = map[string]string{
	"Status":            "SwitchOn SwitchOff OnStatusUpdate OnStakeChanged MarkByzantine Unjail RemoveFromStaff",
	"PubKey":            "SwitchOn",
	"LastPower":         "",
	"LastPubKey":        "",
	"Strokes":           "MarkStroke GeneralAmnesty",
	"OkBlocksInRow":     "MarkTick MarkStroke",
	"MissedBlocksInRow": "MarkTick MarkStroke",
	"Jailed":            "MarkStroke Unjail",
	"UnjailAt":          "MarkStroke",
	"ProposedCount":     "PayProposerReward",
	"JailCount":         "MarkStroke GeneralAmnesty",
	"Score":             "SwitchOn OnStakeChanged RemoveFromStaff MarkStroke MarkTick Unjail GeneralAmnesty",
	"LotteryNo":         "SwitchOff OnStatusUpdate OnStakeChanged RemoveFromStaff MarkStroke MarkByzantine PayProposerReward",
	"Infractions":       "MarkByzantine",
	"BannedForLife":     "MarkByzantine",
	"Staff":             "AddToStaff RemoveFromStaff",
}

func hasWord(list, w string) bool {
	for _, x := range strings.Fields(list) {
		if x == w {
			return true
		}
	}
	return false
}

// ruleNodingGate: who is among the validators.
func ruleNodingGate(c *Check) {
	m := c.nodMachine()
	on := c.method(nodK, "Keeper", "SwitchOn")
	if m == nil || on == nil {
		return
	}
	acc := Sym("acc")
	// changes of any operation
	bad := map[string]string{}
	note := func(k, why string) {
		if bad[k] == "" {
			bad[k] = why
		}
	}
	seen := map[string]bool{}
	leaving := map[string]int{}
	runs := m.eachOp(func(name string, f *ssa.Function, n nodCase, rec *V, p *Path) {
		what := name + " (" + n.String() + ") " + p.exit(c)
		nv := m.rec(p.O.st, acc)
		seen[name] = true
		if nv == nil {
			note("the record stays", what)
			return
		}
		for fl, who := range fieldOps {
			if m.get(nv, fl) != m.get(rec, fl) && (!p.ok() || !hasWord(who, name)) {
				if p.ok() || name != "PayProposerReward" && name != "RemoveFromStaff" { // (a failed transaction is undone)
					note("each field changes in the operations on it only", what+" changes "+fl)
				}
			}
		}
		for _, e := range p.Ev {
			if e.Kind == "Set" && e.Store == "noding" && e.Args[0] != acc || e.Kind == "Delete" && e.Store == "noding" {
				note("no other record changes", what)
			}
		}
		if !p.ok() {
			return
		}
		if n.status != m.isTrue(nv, "Status") && !n.status && name != "SwitchOn" {
			note("only switching on switches on", what)
		}
		if name != "SwitchOn" && name != "MarkByzantine" && name != "Unjail" && name != "SwitchOff" {
			// switched off exactly when found not to be qualified any more
			must := n.status && !n.jailed && !n.banned && !n.qual && (name == "OnStatusUpdate" && !n.staff || name == "OnStakeChanged" && !n.staff || name == "RemoveFromStaff" && n.staff)
			if must == m.isTrue(nv, "Status") && n.status {
				note("a validator no longer qualified is switched off, a qualified one is not", what)
			}
			if must {
				leaving[name]++
			}
			want := 0
			if must {
				want = 1
			}
			if p.emitted("EventValidatorBanished") != want {
				note("leaving is announced", what)
			}
		}
		switch name {
		case "SwitchOff":
			if m.isTrue(nv, "Status") {
				note("switching off switches off", what)
			}
		case "Unjail":
			if m.isTrue(nv, "Status") != (n.status && (n.qual || n.staff)) {
				note("an unjailed account goes on validating only if qualified", what)
			}
		case "AddToStaff":
			if !m.isTrue(nv, "Staff") {
				note("staff is recorded", what)
			}
		case "RemoveFromStaff":
			if m.isTrue(nv, "Staff") {
				note("staff is recorded", what)
			}
		}
		if name == "OnStakeChanged" {
			if !m.scoreIs(p, nv) {
				note("a changed stake changes the score", what+": "+m.get(nv, "Score").str(8))
			}
		}
	})
	for _, k := range []string{"the record stays", "each field changes in the operations on it only", "no other record changes", "only switching on switches on", "a validator no longer qualified is switched off, a qualified one is not",
		"leaving is announced", "switching off switches off", "an unjailed account goes on validating only if qualified", "staff is recorded", "a changed stake changes the score"} {
		c.oblige(bad[k] == "", k, nodK, bad[k])
	}
	c.oblige(leaving["OnStatusUpdate"] > 0 && leaving["OnStakeChanged"] > 0 && leaving["RemoveFromStaff"] > 0, "a lost qualification is noticed", nodK, leaving)
	c.oblige(runs > 400 && len(seen) >= 10, "enough operations are analysed", nodK, runs, len(seen))
	// an account without record
	for name, f := range m.ops() {
		if genesisOnly[name] || name == "GatherValidatorUpdates" {
			continue
		}
		m.data.init, m.data.order = map[*V]*V{}, nil
		m.queue(map[int64]*V{})
		m.qualified = true
		why := ""
		for _, p := range c.paths(f, m.args(f, acc), m.opts(nil)) {
			if p.O.panic || !p.ok() {
				continue
			}
			nv := m.rec(p.O.st, acc)
			if nv == nil {
				continue
			}
			switch name {
			case "SwitchOn":
				if !m.active(nv) || m.get(nv, "PubKey") == Str("") || !m.scoreIs(p, nv) || m.isTrue(nv, "Staff") || m.get(nv, "LotteryNo") != Int(0) {
					why = p.exit(c) + " " + nv.str(6)
				}
			case "AddToStaff":
				if !m.isTrue(nv, "Staff") || m.active(nv) || m.get(nv, "Status") != Bool(false) {
					why = p.exit(c) + " " + nv.str(6)
				}
			default:
				why = p.exit(c) + " makes a record"
			}
		}
		c.oblige(why == "", "a new record is made by switching on and staffing only", shortFn(f), why)
	}
	m.switchOn(on)
	m.qualification()
	// told of lost status and stake
	for _, h := range []struct{ ev, fn string }{{"StatusUpdatedCallback", "OnStatusUpdate"}, {"StakeChangedCallback", "OnStakeChanged"}} {
		f := c.method(nodK, "Keeper", h.fn)
		k, ok := c.P.pkg(refK).Pkg.Scope().Lookup(h.ev).(*types.Const)
		if !c.oblige(f != nil && ok, "anchor", h.fn, "") {
			continue
		}
		n := 0
		for _, g := range c.hooksOf(refK)[constant.StringVal(k.Val())] {
			if g == f {
				n++
			}
		}
		c.oblige(n == 1, "noding is told of changes of status and stake", h.fn, n)
	}
	m.predicates()
	// records and queue are written by the keeper only
	roots := map[*ssa.Function]bool{}
	for _, f := range m.ops() {
		roots[f] = true
	}
	for _, o := range c.P.storeOps() {
		if (o.Store["noding"] || o.Store["noding-index"]) && (o.Op == "Set" || o.Op == "Delete") {
			ok, via := c.P.confined(o.Fn, roots)
			why := ""
			if via != nil {
				why = shortFn(via)
			}
			c.oblige(ok, "records are written by the operations of noding only", shortFn(o.Fn), why)
		}
	}
	// records are set up from genesis only at the beginning
	gen := map[*ssa.Function]bool{}
	for n := range genesisOnly {
		if f := m.ops()[n]; f != nil {
			gen[f] = true
		}
	}
	for _, r := range c.P.txRoots() {
		for f := range gen {
			c.oblige(!c.P.reachable(r)[f], "validators are set up at the beginning only", shortFn(r), shortFn(f))
		}
	}
}

// scoreIs: the score is the logarithm of the stake found less the strokes, plus one for each hundred blocks in row.
func (m *nodMachine) scoreIs(p *Path, nv *V) bool {
	l := linOf(m.get(nv, "Score")).plus(linOf(m.get(nv, "Strokes")), 1).plus(linOf(rawApp("bin:/", m.get(nv, "OkBlocksInRow"), Int(100))), -1)
	if m.get(nv, "OkBlocksInRow") == Int(0) {
		l = linOf(m.get(nv, "Score")).plus(linOf(m.get(nv, "Strokes")), 1)
	}
	return m.isLog(p, nv, l)
}

func (m *nodMachine) isLog(p *Path, nv *V, l lin) bool {
	t := l.single()
	if t == nil {
		// the score happens to be the same
		for a, v := range p.facts() {
			if v && a.is("eq") {
				for i := 0; i < 2; i++ {
					if a.args[i] == m.get(nv, "Score") && anyTerm(a.args[1-i], func(t *V) bool { return t.hasOp("call:math.Log") }) {
						return true
					}
				}
			}
		}
		return false
	}
	return anyTerm(t, func(t *V) bool { return t.hasOp("call:math.Log") }) && (mention(t, m.delegation) || mention(t, Int(1)))
}

func anyTerm(v *V, f func(t *V) bool) bool {
	if f(v) {
		return true
	}
	for _, a := range v.args {
		if anyTerm(a, f) {
			return true
		}
	}
	return false
}

// switchOn: what switching on requires.
func (m *nodMachine) switchOn(on *ssa.Function) {
	c := m.c
	acc, other := Sym("acc"), Sym("other")
	args := m.args(on, acc)
	key := args[len(args)-1]
	// the text the key is recorded as
	var asText *V
	m.load(nodCase{qual: true}, acc)
	for _, p := range c.paths(on, args, m.opts(nil)) {
		if !p.ok() {
			continue
		}
		nv := m.rec(p.O.st, acc)
		asText = m.get(nv, "PubKey")
		c.oblige(m.isTrue(nv, "Status") && mention(asText, key) && m.scoreIs(p, nv), "switching on records key and stake", p.exit(c), nv.str(6))
		n := 0
		for _, e := range p.Ev {
			if e.Kind == "Set" && e.Store == "noding-index" && keyPrefix(e.Args[0]) == m.pOper && mention(e.Args[0], key) && e.Args[1] == acc {
				n++
			}
		}
		c.oblige(n == 1, "the operator of the key is recorded", p.exit(c), n)
	}
	if !c.oblige(asText != nil, "switching on is possible", shortFn(on), "") {
		return
	}
	good := func(n nodCase, busy bool) int {
		rec := m.load(n, acc)
		if n.status {
			m.put(acc, m.set(rec, "PubKey", Sym("oldkey")))
		}
		m.operator = vNil
		if busy {
			m.operator = other
		}
		k := 0
		for _, p := range c.paths(on, args, m.opts(nil)) {
			if p.ok() {
				k++
			}
		}
		return k
	}
	for _, n := range nodCases() {
		if n.lot != 0 || n.infr != 0 {
			continue
		}
		c.oblige(good(n, false) > 0 == (!n.banned && !n.status && (n.qual || n.staff)), "switched on is who is qualified, not banned and not on yet", n.String(), "")
	}
	for b := 0; b < 16; b++ {
		st, ja, same, banned := b&1 != 0, b&2 != 0, b&4 != 0, b&8 != 0
		if banned && st {
			continue
		}
		m.load(nodCase{qual: true}, acc)
		k := Sym("anotherkey")
		if same {
			k = asText
		}
		m.put(other, m.set(rawApp("rec", other), "Status", st, "Jailed", ja, "BannedForLife", banned, "PubKey", k))
		m.operator = other
		free := !(st && same)
		n := 0
		for _, p := range c.paths(on, args, m.opts(func(a *V) (bool, bool) {
			if a.is("eq") && mention(a, Sym("anotherkey")) {
				return false, true
			}
			if strings.HasSuffix(a.op, ".Equals") && mention(a, Sym("anotherkey")) {
				return false, true
			}
			if strings.HasSuffix(a.op, ".Equals") && a.k == KApp {
				return true, true
			}
			return false, false
		})) {
			if p.ok() {
				n++
				nv := m.rec(p.O.st, other)
				c.oblige(nv == m.rec0(other), "switching on leaves others alone", p.exit(c), "")
			}
		}
		c.oblige(n > 0 == free, "no two accounts that are switched on share a key", fmt.Sprintf("the other is on: %v, jailed: %v, banned: %v, has the key: %v", st, ja, banned, same), n)
	}
	m.operator = vNil
}

func (m *nodMachine) rec0(acc *V) *V { return m.data.init[acc].args[0] }

// qualification: staff, or enough status, own and total stake.
func (m *nodMachine) qualification() {
	c := m.c
	acc := Sym("acc")
	q := m.qual
	m.qual = nil
	defer func() { m.qual = q }()
	n := 0
	for b := 0; b < 32; b++ {
		staff, has := b&1 != 0, b&2 != 0
		if staff && !has {
			continue
		}
		lows := map[string]bool{"status": b&4 != 0, "own": b&8 != 0, "total": b&16 != 0}
		m.data.init, m.data.order = map[*V]*V{}, nil
		if has {
			m.put(acc, m.set(rawApp("rec", acc), "Staff", staff))
		}
		o := m.opts(func(a *V) (bool, bool) {
			if !a.is("lt") {
				return false, false
			}
			for i := 0; i < 2; i++ {
				lim := a.args[i]
				what := ""
				switch {
				case lim.hasOp("field:") && strings.HasSuffix(lim.op, "MinCriteria.Status"):
					what = "status"
				case lim.hasOp("field:") && strings.HasSuffix(lim.op, "MinCriteria.SelfStake"):
					what = "own"
				case lim.hasOp("field:") && strings.HasSuffix(lim.op, "MinCriteria.TotalStake"):
					what = "total"
				}
				x := a.args[1-i]
				switch what {
				case "status":
					if !anyTerm(x, func(t *V) bool { return strings.Contains(t.op, ".GetStatus") && mention(t, acc) }) {
						return false, false
					}
				case "own":
					if !anyTerm(x, func(t *V) bool { return isDelegated(t, acc) }) {
						return false, false
					}
				case "total":
					if !anyTerm(x, func(t *V) bool {
						return strings.Contains(t.op, ".GetDelegatedInNetwork") && mention(t, acc) && mention(t, Int(10))
					}) {
						return false, false
					}
				default:
					continue
				}
				if i == 1 { // x < limit
					return lows[what], true
				}
				return false, true // the limit is met just so, or missed
			}
			return false, false
		})
		want := staff || !lows["status"] && !lows["own"] && !lows["total"]
		bad, k := "", 0
		for _, p := range c.paths(q, []*V{Sym("k"), Sym("ctx"), acc}, o) {
			if r, ok := boolOf(p.O.vals[0]); !p.ok() {
				if ok && r && want == false {
					bad = p.exit(c)
				}
				continue
			} else if !ok || r != want {
				bad = p.exit(c) + " says " + p.O.vals[0].str(4)
			}
			if !anyTerm(p.O.vals[1], func(t *V) bool { return strings.Contains(t.op, ".GetDelegatedInNetwork") }) {
				bad = "the stake is " + p.O.vals[1].str(5)
			}
			k++
		}
		n += k
		c.oblige(bad == "" && k > 0, "qualified is staff, or who has the status, the own and the total stake required", fmt.Sprintf("staff: %v, lacks: %v", staff, lows), bad, k)
	}
}

// predicates: what is told about validators follows their records.
func (m *nodMachine) predicates() {
	c := m.c
	acc := Sym("acc")
	for _, name := range []string{"IsValidator", "IsActiveValidator", "IsBanned", "GetActiveValidators", "GetNonActiveValidators", "GetActiveValidatorList"} {
		f := c.method(nodK, "Keeper", name)
		if f == nil {
			continue
		}
		for _, n := range nodCases() {
			if n.staff || n.qual || n.infr > 0 || n.lot > 0 {
				continue
			}
			rec := m.load(n, acc)
			k := 0
			for _, p := range c.paths(f, m.args(f, acc), m.opts(nil)) {
				if !p.ok() {
					continue
				}
				k++
				r := p.X.snap(p.O.st, p.O.vals[0])
				good := false
				switch name {
				case "IsValidator":
					good = r == Bool(m.active(rec))
				case "IsActiveValidator":
					b, ok := boolOf(r)
					good = ok && (!b || m.active(rec))
				case "IsBanned":
					good = r == Bool(n.banned)
				default:
					want := 0
					if m.active(rec) != (name == "GetNonActiveValidators") {
						want = 1
					}
					good = r == vNil && want == 0 || r.k == KList && len(r.args) == want
				}
				c.oblige(good, "what is told about a validator follows its record", shortFn(f)+" ("+n.String()+")", r.str(4))
			}
			c.oblige(k > 0, "what is told about a validator follows its record", shortFn(f), "no answer")
		}
	}
}


// ruleNodingJail: blocks missed and signed, evidence, jail and ban.
func ruleNodingJail(c *Check) {
	m := c.nodMachine()
	if m == nil {
		return
	}
	acc := Sym("acc")
	height := Sym("height")
	bad := map[string]string{}
	note := func(k, why string) {
		if bad[k] == "" {
			bad[k] = why
		}
	}
	count := map[string]int{}
	const (
		kBan   = "a ban is forever"
		kJail  = "a jailed account is jailed until it is unjailed in time"
		kMiss  = "a missed block counts, and jails when there are too many in row"
		kSign  = "a signed block counts"
		kByz   = "evidence is recorded, and bans the second time"
		kScore = "the score follows strokes and blocks"
		kAmn   = "an amnesty forgives strokes"
	)
	_ = height
	plus := func(rec *V, f string, k int64) lin { return linOf(m.get(rec, f)).plus(linOf(Int(k)), 1) }
	runs := m.eachOp(func(name string, f *ssa.Function, n nodCase, rec *V, p *Path) {
		nv := m.rec(p.O.st, acc)
		what := name + " (" + n.String() + ") " + p.exit(c)
		if nv == nil || !p.ok() {
			return
		}
		is := func(f string, l lin) bool { return linOf(m.get(nv, f)).same(l) }
		same := func(fs ...string) bool {
			for _, f := range fs {
				if m.get(nv, f) != m.get(rec, f) {
					return false
				}
			}
			return true
		}
		if n.banned && !m.isTrue(nv, "BannedForLife") || m.isTrue(nv, "BannedForLife") && m.isTrue(nv, "Status") {
			note(kBan, what)
		}
		if n.jailed && !m.isTrue(nv, "Jailed") {
			count["unjailed"]++
			early := true
			for a, v := range p.facts() {
				if a.is("lt") && !v && isHeight(a.args[0]) && a.args[1] == m.get(rec, "UnjailAt") {
					early = false
				}
				if a.is("lt") && v && isHeight(a.args[1]) && a.args[0] == m.get(rec, "UnjailAt") {
					early = false
				}
			}
			if name != "Unjail" || early {
				note(kJail, what)
			}
		}
		if !n.jailed && m.isTrue(nv, "Jailed") {
			count["jailed"]++
			if name != "MarkStroke" || p.emitted("EventValidatorJailed") != 1 {
				note(kJail, what)
			}
		} else if p.emitted("EventValidatorJailed") != 0 {
			note(kJail, what+" announces a jailing")
		}
		if name == "Unjail" && (!n.jailed || m.isTrue(nv, "Jailed")) {
			note(kJail, what)
		}
		if l := m.scoreShift(p, rec, nv); l != "" {
			note(kScore, what+": "+l)
		}
		switch name {
		case "MarkStroke":
			if n.jailed {
				if nv != rec {
					note(kMiss, what+" changes a jailed account")
				}
				return
			}
			if !is("Strokes", plus(rec, "Strokes", 1)) || !is("OkBlocksInRow", lin{}) {
				note(kMiss, what)
			}
			next := plus(rec, "MissedBlocksInRow", 1)
			enough, known := p.compare(next, "JailAfter")
			if !known {
				note(kMiss, what+": not compared with the limit")
			}
			if m.isTrue(nv, "Jailed") != enough {
				note(kMiss, what+": jailed before or after the limit")
			}
			if enough {
				if !is("MissedBlocksInRow", lin{}) || !is("JailCount", plus(rec, "JailCount", 1)) || !m.unjailTime(m.get(nv, "UnjailAt")) {
					note(kMiss, what+": "+m.get(nv, "UnjailAt").str(6))
				}
			} else if !is("MissedBlocksInRow", next) || !same("JailCount", "UnjailAt") {
				note(kMiss, what)
			}
		case "MarkTick":
			if !is("MissedBlocksInRow", lin{}) || !is("OkBlocksInRow", plus(rec, "OkBlocksInRow", 1)) || !same("Strokes", "JailCount") {
				note(kSign, what)
			}
			count["tick"]++
		case "MarkByzantine":
			inf := m.get(nv, "Infractions")
			if inf.k != KList || len(inf.args) != n.infr+1 || inf.args[len(inf.args)-1] != m.args(f, acc)[3] || n.infr == 1 && inf.args[0] != Sym("evidence0") {
				note(kByz, what+": "+inf.str(5))
			}
			if m.isTrue(nv, "BannedForLife") != (n.banned || n.infr == 1) || n.infr == 0 && !same("Status") || n.infr == 1 && m.isTrue(nv, "Status") {
				note(kByz, what)
			}
			if p.emitted("EventByzantine") != 1 {
				note(kByz, what+": not announced")
			}
			count["byz"]++
		case "GeneralAmnesty":
			if fs := m.get(nv, "Strokes"); fs != Int(0) && !p.zero(fs) {
				note(kAmn, what+": "+fs.str(5))
			}
			count["amnesty"]++
		}
	})
	for _, k := range []string{kBan, kJail, kMiss, kSign, kByz, kScore, kAmn} {
		c.oblige(bad[k] == "", k, nodK, bad[k])
	}
	c.oblige(count["unjailed"] > 0 && count["jailed"] > 0 && count["tick"] > 0 && count["byz"] > 0 && count["amnesty"] > 0 && runs > 400, "jail, ban and counts are analysed", nodK, count, runs)
	// unjailing needs the time
	if f := c.method(nodK, "Keeper", "Unjail"); f != nil {
		for _, n := range nodCases() {
			if !n.jailed {
				continue
			}
			rec := m.load(n, acc)
			for _, early := range []bool{true, false} {
				k := 0
				for _, p := range c.paths(f, m.args(f, acc), m.opts(func(a *V) (bool, bool) {
					if a.is("lt") && isHeight(a.args[0]) && a.args[1] == m.get(rec, "UnjailAt") {
						return early, true
					}
					if a.is("lt") && isHeight(a.args[1]) && a.args[0] == m.get(rec, "UnjailAt") {
						return !early, true
					}
					return false, false
				})) {
					if p.ok() {
						k++
					}
				}
				c.oblige(early == (k == 0), "unjailing is refused before its time only", n.String(), early, k)
			}
		}
	}
	m.blockBegin()
}

func isHeight(v *V) bool { return v.is("blockheight") }

// zero: the path knows the value to be zero.
func (p *Path) zero(v *V) bool {
	b, ok := p.known(mkEq(v, Int(0)))
	return ok && b
}

// compare: whether the form is at least the parameter.
func (p *Path) compare(l lin, param string) (atLeast, known bool) {
	for a, v := range p.facts() {
		if !a.is("lt") {
			continue
		}
		for i := 0; i < 2; i++ {
			lim := a.args[i]
			if !lim.hasOp("field:") || !strings.HasSuffix(lim.op, "Params."+param) {
				continue
			}
			d := linOf(a.args[1-i]).plus(l, -1).norm()
			if len(d) == 0 {
				if i == 1 { // l < limit
					return !v, true
				}
				if v { // limit < l
					return true, true
				}
			}
			// limit < l+1, l-1 < limit
			if i == 0 && d.same(linOf(Int(1))) {
				return v, true
			}
			if i == 1 && d.same(linOf(Int(-1))) && !v {
				return true, true
			}
		}
	}
	return false, false
}

// unjailTime: the parameter's number of blocks from now.
func (m *nodMachine) unjailTime(v *V) bool {
	l := linOf(v).norm()
	h, u := 0, 0
	for t, k := range l {
		switch {
		case isHeight(t) && k == 1:
			h++
		case t.hasOp("field:") && strings.HasSuffix(t.op, "Params.UnjailAfter") && k == 1:
			u++
		default:
			return false
		}
	}
	return h == 1 && u == 1
}

// scoreShift: the score changed as strokes and blocks in row did (or was computed anew).
func (m *nodMachine) scoreShift(p *Path, old, nv *V) string {
	hundreds := func(r *V) lin {
		ok := linOf(m.get(r, "OkBlocksInRow")).norm()
		if len(ok) == 0 {
			return lin{}
		}
		base := linOf(m.get(old, "OkBlocksInRow"))
		if ok.same(base.plus(linOf(Int(1)), 1)) {
			l := linOf(rawApp("bin:/", m.get(old, "OkBlocksInRow"), Int(100)))
			for a, v := range p.facts() {
				if a.is("eq") && v {
					for i := 0; i < 2; i++ {
						if a.args[1-i] == Int(0) && a.args[i].is("bin:%") && a.args[i].args[1] == Int(100) && linOf(a.args[i].args[0]).same(ok) {
							return l.plus(linOf(Int(1)), 1)
						}
					}
				}
			}
			return l
		}
		return linOf(rawApp("bin:/", m.get(r, "OkBlocksInRow"), Int(100)))
	}
	total := func(r *V) lin {
		return linOf(m.get(r, "Score")).plus(linOf(m.get(r, "Strokes")), 1).plus(hundreds(r), -1)
	}
	if total(old).same(total(nv)) {
		return ""
	}
	if m.isLog(p, nv, total(nv)) {
		return ""
	}
	d := total(nv).plus(total(old), -1).norm()
	zeros := 0
	for t := range d {
		if p.zero(t) {
			zeros++
		}
	}
	if zeros == len(d) {
		return ""
	}
	return "off by " + d.String()
}

// blockBegin: every vote and every piece of evidence of a block is counted once, for the operator of the node.
func (m *nodMachine) blockBegin() {
	c := m.c
	f := c.fn("x/noding", "BeginBlocker")
	tick, stroke, byz := c.method(nodK, "Keeper", "MarkTick"), c.method(nodK, "Keeper", "MarkStroke"), c.method(nodK, "Keeper", "MarkByzantine")
	pay, find := c.method(nodK, "Keeper", "PayProposerReward"), c.method(nodK, "Keeper", "GetValidatorByConsAddr")
	if f == nil || tick == nil || stroke == nil || byz == nil || pay == nil || find == nil {
		return
	}
	reqT := f.Signature.Params().At(1).Type()
	field := func(v *V, t types.Type, n string) (*V, types.Type, *V) {
		s, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			return nil, nil, nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				sel := FieldSel(deref(t), i)
				return project(v, sel), s.Field(i).Type(), sel
			}
		}
		return nil, nil, nil
	}
	req := Sym("req")
	lci, lciT, lciSel := field(req, reqT, "LastCommitInfo")
	_, votesT, votesSel := field(lci, lciT, "Votes")
	_, evT, evSel := field(req, reqT, "ByzantineValidators")
	hdr, hdrT, _ := field(req, reqT, "Header")
	proposer, _, _ := field(hdr, hdrT, "ProposerAddress")
	vs, ok1 := votesT.(*types.Slice)
	es, ok2 := evT.(*types.Slice)
	if !c.oblige(ok1 && ok2 && proposer != nil, "anchor", "votes and evidence of a block", "") {
		return
	}
	for b := 0; b < 16; b++ {
		payFails := b&4 != 0
		markFails := b&8 != 0
		var votes, evs []*V
		_, _, signed := field(Sym("v"), vs.Elem(), "SignedLastBlock")
		addr := func(v *V, t types.Type) *V {
			val, valT, _ := field(v, t, "Validator")
			a, _, _ := field(val, valT, "Address")
			return a
		}
		var want []string
		who := map[string]*V{}
		for i := 0; i < 2; i++ {
			v := Sym("vote" + itoa(i))
			v = update(v, signed, Bool(b>>uint(i)&1 != 0))
			votes = append(votes, v)
			n := "stroke" + itoa(i)
			if b>>uint(i)&1 != 0 {
				n = "tick" + itoa(i)
			}
			want = append(want, n)
			who[n] = addr(v, vs.Elem())
		}
		for i := 0; i < 2; i++ {
			e := Sym("evidence" + itoa(i))
			evs = append(evs, e)
			n := "byz" + itoa(i)
			want = append(want, n)
			who[n] = addr(e, es.Elem())
		}
		r := update(update(req, lciSel, update(lci, votesSel, List(votes...))), evSel, List(evs...))
		o := pathOpts{unroll: 4, limit: 2000, inline: func(g *ssa.Function) bool {
			return samePkgOf(modPath+"/"+nodK)(g) || fnPkgPath(g) == modPath+"/x/noding"
		}}
		o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			switch ci.Fn {
			case nil:
				return false, nil
			case find:
				return true, []Outcome{{vals: []*V{rawApp("operator", x.snap(st, ci.Args[2])), Bool(true), Sym("active"), vNil}, st: st}}
			case tick, stroke, byz, pay:
				addTrace(st, Ev{Kind: "call", Fn: ci.Fn, Args: snapAll(x, st, ci.Args), At: ci.Instr})
				if ci.Fn == pay && payFails || ci.Fn != pay && ci.Fn != byz && markFails {
					return true, []Outcome{{vals: []*V{rawApp("err:failed", ci.Site)}, st: st}}
				}
				return true, []Outcome{{vals: []*V{vNil}, st: st}}
			}
			return false, nil
		}
		if !payFails {
			if markFails {
				continue
			}
		}
		n := 0
		for _, p := range c.paths(f, []*V{Sym("ctx"), r, Sym("k")}, o) {
			if p.O.panic {
				continue
			}
			n++
			got := map[string]int{}
			rewards, bad := 0, ""
			for _, e := range p.Ev {
				if e.Kind != "call" {
					continue
				}
				if e.Fn == pay {
					if e.Args[2] == rawApp("operator", proposer) {
						rewards++
					} else {
						bad = "the reward goes to " + e.Args[2].str(6)
					}
					continue
				}
				hit := false
				for k, a := range who {
					kind := map[*ssa.Function]string{tick: "tick", stroke: "stroke", byz: "byz"}[e.Fn]
					if strings.HasPrefix(k, kind) && e.Args[2] == rawApp("operator", a) && (e.Fn != byz || e.Args[3] == evs[k[3]-'0']) {
						got[k]++
						hit = true
					}
				}
				if !hit {
					bad = e.Fn.Name() + " of " + e.Args[2].str(6)
				}
			}
			for _, k := range want {
				if markFails && !strings.HasPrefix(k, "byz") {
					continue
				}
				if got[k] != 1 {
					bad += fmt.Sprint(" ", k, " is counted ", got[k], " times")
				}
			}
			c.oblige(bad == "" && rewards == 1, "each vote, each piece of evidence and the proposal count once, for the operator of the node", fmt.Sprint(p.exit(c), " case ", b), bad, rewards)
		}
		c.oblige(n > 0, "blocks begin", shortFn(f), b)
	}
}

// ruleLottery: the queue of the lottery and the numbers on the records agree.
func ruleLottery(c *Check) {
	m := c.nodMachine()
	if m == nil {
		return
	}
	acc := Sym("acc")
	bad := map[string]string{}
	note := func(k, why string) {
		if bad[k] == "" {
			bad[k] = why
		}
	}
	const (
		kSame = "the queue and the numbers on record agree"
		kOut  = "who does not validate is not in the queue"
		kIn   = "who goes on validating stays in the queue"
		kLast = "who had its chance or missed it goes to the end of the queue"
		kMine = "others keep their places"
	)
	last, out := 0, 0
	runs := m.eachOp(func(name string, f *ssa.Function, n nodCase, rec *V, p *Path) {
		nv := m.rec(p.O.st, acc)
		what := name + " (" + n.String() + ") " + p.exit(c)
		if nv == nil || !p.ok() {
			return
		}
		q, why := m.queueAt(p.O.st)
		no, ok := intOf(m.get(nv, "LotteryNo"))
		if why != "" || !ok {
			note(kSame, what+": "+why)
			return
		}
		mine := 0
		for k, v := range q {
			if v == acc {
				mine++
				if k != no {
					note(kSame, what+fmt.Sprint(": number ", no, " on record, ", k, " in the queue"))
				}
			}
		}
		if no != 0 && mine != 1 || no == 0 && mine != 0 {
			note(kSame, what+fmt.Sprint(": number ", no, " on record, ", mine, " entries in the queue"))
		}
		if q[3] != Sym("first") || q[9] != Sym("last") || len(q)-mine != 2 {
			note(kMine, what)
		}
		if no != 0 && !m.active(nv) {
			note(kOut, what)
		}
		if n.lot != 0 && !m.active(nv) {
			out++
		}
		if n.lot != 0 && m.active(nv) {
			if no == 0 {
				note(kIn, what)
			}
			moves := name == "MarkStroke" || name == "PayProposerReward" || name == "MarkByzantine"
			if moves {
				last++
				if no <= 9 {
					note(kLast, what)
				}
			} else if no != int64(n.lot) {
				note(kIn, what+": moved")
			}
		}
	})
	for _, k := range []string{kSame, kOut, kIn, kLast, kMine} {
		c.oblige(bad[k] == "", k, nodK, bad[k])
	}
	c.oblige(last > 0 && out > 0 && runs > 400, "the queue is analysed", nodK, last, out, runs)
}

// concreteSort sorts a list of which the comparison of any two elements is known.
func concreteSort(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
	if ci.Name != "sort.Slice" && ci.Name != "sort.SliceStable" || len(ci.Args) != 2 {
		return false, nil
	}
	fv := stripIface(ci.Args[1])
	l := x.snap(st, ci.Args[0])
	l = stripIface(l)
	if l.k != KList || fv.k != KFunc || fv.fn.Blocks == nil {
		return false, nil
	}
	n := len(l.args)
	less := func(i, j int) (bool, bool) {
		outs := x.exec(fv.fn, []*V{Int(int64(i)), Int(int64(j))}, fv.args, st.clone(), ci.Site, ci.Ctx)
		if len(outs) != 1 || len(outs[0].vals) != 1 {
			return false, false
		}
		return boolOf(outs[0].vals[0])
	}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			b, ok := less(idx[j], idx[j-1])
			if !ok {
				return false, nil
			}
			if !b {
				break
			}
			idx[j], idx[j-1] = idx[j-1], idx[j]
		}
	}
	r := []*V{}
	for _, i := range idx {
		r = append(r, l.args[i])
	}
	done := false
	for _, a := range append([]*V{stripIface(ci.Args[0])}, fv.args...) {
		if a = stripIface(a); a.k == KAddr && x.snap(st, x.load(st, a)) == l {
			x.store(st, a, List(r...))
			done = true
		}
	}
	return done || n < 2, []Outcome{{st: st}}
}

// ruleValidatorSet: what the consensus is told of validators is what the records say.
func ruleValidatorSet(c *Check) {
	m := c.nodMachine()
	f := c.method(nodK, "Keeper", "GatherValidatorUpdates")
	if m == nil || f == nil {
		return
	}
	res := f.Signature.Results()
	sl, ok := res.At(0).Type().Underlying().(*types.Slice)
	if !c.oblige(ok && fieldVal(Sym("u"), sl.Elem(), "Power") != nil, "anchor", "validator updates", "") {
		return
	}
	updT := sl.Elem()
	type acct struct {
		name           string
		on             bool
		score          int64
		key            string
		lastKey        string
		lastPower, lot int64
		okb            int64
	}
	power := func(score int64) int64 { return 1000 + score }
	runs := 0
	bad := map[string]string{}
	const (
		kSet  = "the consensus gets exactly the changes of validators and powers"
		kRec  = "records tell what the consensus was told"
		kTop  = "chosen are the first by score, and the first in the queue of the others"
		kQue  = "who is not chosen by score waits in the queue, who is leaves it"
		kPath = "the choice is determined"
		kKeep = "the choice changes nothing else of the records"
	)
	note := func(k, why string) {
		if bad[k] == "" {
			bad[k] = why
		}
	}
	own := samePkgOf(modPath + "/" + nodK)
	run := func(as []acct, top, lucky int64) {
		runs++
		m.data.init, m.data.order = map[*V]*V{}, nil
		q := map[int64]*V{}
		what := fmt.Sprintf("%+v %d+%d", as, top, lucky)
		before := map[string]int64{}
		for _, a := range as {
			rec := m.set(rawApp("rec", Sym(a.name)), "Status", a.on, "Jailed", false, "BannedForLife", false, "Score", Int(a.score), "OkBlocksInRow", Int(a.okb),
				"PubKey", a.key, "LastPubKey", a.lastKey, "LastPower", Int(a.lastPower), "LotteryNo", Int(a.lot))
			m.put(Sym(a.name), rec)
			if a.lot != 0 {
				q[a.lot] = Sym(a.name)
			}
			if a.lastPower != 0 {
				before[a.lastKey] = a.lastPower
			}
		}
		m.queue(q)
		m.params = map[string]*V{"MaxValidators": Int(top), "LotteryValidators": Int(lucky)}
		o := m.opts(nil)
		o.unroll = 8
		base := o.onCall
		o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if ok, r := concreteSort(x, ci, st); ok {
				return ok, r
			}
			if g := ci.Fn; g != nil {
				ps, rs := g.Signature.Params(), g.Signature.Results()
				switch {
				case own(g) && g.Signature.Recv() != nil && strings.HasSuffix(typeName(g.Signature.Recv().Type()), ".VpGenerator") && ps.Len() == 1:
					if n, ok := intOf(x.snap(st, ci.Args[1])); ok {
						return true, []Outcome{{vals: []*V{Int(power(n))}, st: st}}
					}
				case own(g) && g.Signature.Recv() == nil && ps.Len() == 1 && rs.Len() == 1 && strings.HasSuffix(typeName(rs.At(0).Type()), "crypto.PublicKey"):
					return true, []Outcome{{vals: []*V{rawApp("tmkey", x.snap(st, ci.Args[0]))}, st: st}}
				case g.Name() == "Equal" && g.Signature.Recv() != nil && strings.HasSuffix(typeName(g.Signature.Recv().Type()), "crypto.PublicKey"):
					at := func(v *V) *V {
						v = stripIface(v)
						if v.k == KAddr {
							v = x.load(st, v)
						}
						return stripIface(x.snap(st, v))
					}
					a, b := at(ci.Args[0]), at(ci.Args[1])
					if a.is("tmkey") && b.is("tmkey") {
						return true, []Outcome{{vals: []*V{Bool(a == b)}, st: st}}
					}
				}
			}
			return base(x, ci, st)
		}
		n := 0
		for _, p := range c.paths(f, []*V{Sym("k"), Sym("ctx")}, o) {
			if !p.ok() {
				continue
			}
			n++
			// what is expected
			var act []acct
			for _, a := range as {
				if a.on {
					act = append(act, a)
				}
			}
			sort.SliceStable(act, func(i, j int) bool {
				return act[i].score > act[j].score || act[i].score == act[j].score && act[i].okb > act[j].okb
			})
			chosen := map[string]bool{}
			topper := map[string]bool{}
			for i := 0; i < len(act) && int64(i) < top; i++ {
				chosen[act[i].name], topper[act[i].name] = true, true
			}
			var queue []acct
			for _, a := range act {
				if a.lot != 0 && !topper[a.name] {
					queue = append(queue, a)
				}
			}
			sort.SliceStable(queue, func(i, j int) bool { return queue[i].lot < queue[j].lot })
			for i := 0; i < len(queue) && int64(i) < lucky; i++ {
				chosen[queue[i].name] = true
			}
			after := map[string]int64{}
			nos := map[int64]string{}
			for _, a := range as {
				r := m.rec(p.O.st, Sym(a.name))
				old := m.rec0(Sym(a.name))
				if r == nil {
					note(kRec, what+": the record of "+a.name+" is lost")
					return
				}
				for fl := range fieldOps {
					if fl != "LastPower" && fl != "LastPubKey" && fl != "LotteryNo" && m.get(r, fl) != m.get(old, fl) {
						note(kKeep, what+": "+fl)
					}
				}
				lp, ok1 := intOf(m.get(r, "LastPower"))
				lk, ok2 := strOf(m.get(r, "LastPubKey"))
				no, ok3 := intOf(m.get(r, "LotteryNo"))
				if !ok1 || !ok2 || !ok3 {
					note(kPath, what+": "+r.str(6))
					return
				}
				if chosen[a.name] {
					after[a.key] = power(a.score)
					if lp != power(a.score) || lk != a.key {
						note(kTop, what+": "+a.name+" is not recorded as chosen")
					}
				} else if lp != 0 {
					note(kTop, what+": "+a.name+" is recorded as chosen")
				} else if lk != "" {
					note(kRec, what+": "+a.name)
				}
				if a.on {
					if topper[a.name] != (no == 0) || a.lot != 0 && no != 0 && no != a.lot {
						note(kQue, what+fmt.Sprint(": ", a.name, " has number ", no))
					}
					if no != 0 {
						if nos[no] != "" {
							note(kQue, what+": a number is given twice")
						}
						nos[no] = a.name
					}
				}
			}
			qa, why := m.queueAt(p.O.st)
			if why != "" {
				note(kQue, what+": "+why)
			}
			for k, v := range qa {
				if nos[k] == "" || v != Sym(nos[k]) {
					note(kQue, what+fmt.Sprint(": number ", k, " in the queue"))
				}
			}
			if len(qa) != len(nos) {
				note(kQue, what+": somebody is missing in the queue")
			}
			us := stripIface(p.X.snap(p.O.st, p.O.vals[0]))
			if us.k == KNil {
				us = List()
			}
			if us.k != KList {
				note(kPath, what+": updates "+us.str(5))
				return
			}
			now := map[string]int64{}
			for k, v := range before {
				now[k] = v
			}
			told := map[string]bool{}
			for _, u := range us.args {
				k := fieldVal(u, updT, "PubKey")
				pw, ok := intOf(fieldVal(u, updT, "Power"))
				if !k.is("tmkey") || !ok {
					note(kPath, what+": update "+u.str(6))
					return
				}
				key, _ := strOf(k.args[0])
				if told[key] {
					note(kSet, what+": a key comes twice")
				}
				told[key] = true
				if pw == 0 {
					if now[key] == 0 {
						note(kSet, what+": an unknown key is removed")
					}
					delete(now, key)
				} else {
					now[key] = pw
				}
			}
			if fmt.Sprint(now) != fmt.Sprint(after) {
				note(kSet, what+fmt.Sprint(": the consensus knows ", now, " instead of ", after))
			}
		}
		if n != 1 {
			note(kPath, what+fmt.Sprint(": ", n, " paths"))
		}
	}
	// the states of one account
	type form struct {
		on        bool
		last, lot int
	}
	var forms []form
	for _, last := range []int{0, 1} {
		forms = append(forms, form{false, last, 0})
	}
	for _, last := range []int{0, 1, 2, 3, 4} { // none, as now, a lower power, another key, a higher power
		for _, lot := range []int{0, 1} {
			forms = append(forms, form{true, last, lot})
		}
	}
	make1 := func(fm form, i int) acct {
		score := []int64{20, 30, 10, 5}[i]
		a := acct{name: []string{"one", "two", "three", "four"}[i], on: fm.on, score: score, key: "key" + itoa(i)}
		switch fm.last {
		case 1:
			a.lastKey, a.lastPower = a.key, power(score)
		case 2:
			a.lastKey, a.lastPower = a.key, 7
		case 3:
			a.lastKey, a.lastPower = "old"+itoa(i), power(score)
		case 4:
			a.lastKey, a.lastPower = a.key, 7777
		}
		if fm.lot != 0 {
			a.lot = []int64{8, 3, 5, 4}[i]
		}
		return a
	}
	for _, lim := range [][2]int64{{1, 1}, {1, 0}, {2, 1}, {1, 2}} {
		for _, f1 := range forms {
			for _, f2 := range forms {
				run([]acct{make1(f1, 0), make1(f2, 1)}, lim[0], lim[1])
				for _, f3 := range forms {
					if lim[1] == 1 {
						run([]acct{make1(f1, 0), make1(f2, 1), make1(f3, 2)}, lim[0], lim[1])
					}
				}
			}
		}
	}
	// equal scores
	for _, f1 := range forms {
		for _, f2 := range forms {
			a, b := make1(f1, 0), make1(f2, 1)
			a.score, b.score = 9, 9
			a.okb, b.okb = 40, 70
			run([]acct{a, b}, 1, 1)
			run([]acct{a, b}, 1, 0)
			a.okb = 90
			run([]acct{a, b}, 1, 0)
		}
	}
	// a key goes from an account to another
	for _, f1 := range forms {
		if f1.on {
			continue
		}
		for _, f2 := range forms {
			if !f2.on {
				continue
			}
			a, b := make1(f1, 0), make1(f2, 1)
			if a.lastPower == 0 {
				continue
			}
			b.key = a.lastKey
			if b.lastPower != 0 && f2.last != 3 {
				b.lastKey = "older"
			}
			run([]acct{a, b}, 1, 0)
			run([]acct{b, a}, 1, 0)
			b.score = 5 // the key's new owner may be chosen by chance, or not at all
			for _, d := range forms {
				if d.on {
					run([]acct{a, b, make1(d, 2)}, 1, 1)
					run([]acct{b, make1(d, 2), a}, 1, 1)
				}
			}
		}
	}
	// two accounts exchange their keys
	for _, f1 := range forms {
		for _, f2 := range forms {
			if !f1.on || !f2.on || f1.last == 0 || f2.last == 0 {
				continue
			}
			a, b := make1(f1, 0), make1(f2, 1)
			a.lastKey, b.lastKey = b.key, a.key
			run([]acct{a, b}, 2, 0)
			run([]acct{a, b}, 1, 1)
		}
	}
	for _, k := range []string{kPath, kSet, kRec, kTop, kQue, kKeep} {
		c.oblige(bad[k] == "", k, shortFn(f), bad[k])
	}
	c.oblige(runs > 2000, "enough sets of validators are analysed", shortFn(f), runs)
	m.votingPower(f)
}

// votingPower: the first by score get the powers of the slices of the distribution, those by chance the power for them.
func (m *nodMachine) votingPower(f *ssa.Function) {
	c := m.c
	pt := c.P.typeOf(nodT, "Params")
	dt, st := c.P.typeOf(nodT, "Distribution"), c.P.typeOf(nodT, "Distribution_Slice")
	if !c.oblige(pt != nil && dt != nil && st != nil && fieldVal(Sym("d"), dt, "Slices") != nil && fieldVal(Sym("d"), dt, "LuckiesVotingPower") != nil && fieldVal(Sym("d"), st, "Part") != nil && fieldVal(Sym("d"), st, "VotingPower") != nil, "anchor", "distribution of voting power", "") {
		return
	}
	sel := func(t types.Type, n string) *V {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return FieldSel(t, i)
			}
		}
		return nil
	}
	type slice struct{ num, den, power int64 }
	run := func(max int64, slices []slice, scores []int64) (powers []int64, bad string) {
		m.data.init, m.data.order = map[*V]*V{}, nil
		q := map[int64]*V{}
		for i, sc := range scores {
			a := Sym("v" + itoa(i))
			lot := 0
			if int64(i) >= max {
				lot = i + 1
				q[int64(lot)] = a
			}
			m.put(a, m.set(rawApp("rec", a), "Status", true, "Jailed", false, "BannedForLife", false, "Score", Int(sc), "OkBlocksInRow", 1000-i, "PubKey", "key"+itoa(i), "LastPubKey", "", "LastPower", 0, "LotteryNo", lot))
		}
		m.queue(q)
		var l []*V
		for _, s := range slices {
			l = append(l, update(update(Zero(st), sel(st, "Part"), rawApp("call:util.NewFraction", Int(s.num), Int(s.den))), sel(st, "VotingPower"), Int(s.power)))
		}
		d := update(update(Zero(dt), sel(dt, "Slices"), List(l...)), sel(dt, "LuckiesVotingPower"), Int(3))
		m.params = map[string]*V{"MaxValidators": Int(max), "LotteryValidators": Int(int64(len(scores))), "VotingPower": d}
		o := m.opts(nil)
		o.unroll = 12
		base := o.onCall
		o.onCall = func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if ok, r := concreteSort(x, ci, st); ok {
				return ok, r
			}
			if g := ci.Fn; g != nil {
				ps, rs := g.Signature.Params(), g.Signature.Results()
				switch {
				case g.Signature.Recv() == nil && ps.Len() == 1 && rs.Len() == 1 && strings.HasSuffix(typeName(rs.At(0).Type()), "crypto.PublicKey"):
					return true, []Outcome{{vals: []*V{rawApp("tmkey", x.snap(st, ci.Args[0]))}, st: st}}
				case g.Name() == "Equal" && g.Signature.Recv() != nil && strings.HasSuffix(typeName(g.Signature.Recv().Type()), "crypto.PublicKey"):
					return true, []Outcome{{vals: []*V{Bool(false)}, st: st}}
				case g.Signature.Recv() != nil && typeName(g.Signature.Recv().Type()) == "util.Fraction" && len(ci.Args) == 2:
					a, b := ratOf(x.snap(st, ci.Args[0])), ratOf(x.snap(st, ci.Args[1]))
					if a != nil && b != nil {
						r := a.Cmp(b)
						v := map[string]bool{"LTE": r <= 0, "LT": r < 0, "GTE": r >= 0, "GT": r > 0, "Equal": r == 0}
						if b, ok := v[g.Name()]; ok {
							return true, []Outcome{{vals: []*V{Bool(b)}, st: st}}
						}
					}
				}
			}
			return base(x, ci, st)
		}
		n := 0
		for _, p := range c.paths(f, []*V{Sym("k"), Sym("ctx")}, o) {
			if p.O.panic {
				bad = "panics at " + c.P.pos(p.O.pos)
				continue
			}
			if !p.ok() {
				continue
			}
			n++
			for i := range scores {
				r := m.rec(p.O.st, Sym("v"+itoa(i)))
				if r == nil {
					return nil, "a record is lost"
				}
				w, ok := intOf(m.get(r, "LastPower"))
				if !ok {
					return nil, "the power is " + m.get(r, "LastPower").str(6)
				}
				powers = append(powers, w)
			}
		}
		if n != 1 {
			return nil, bad + fmt.Sprint(n, " paths")
		}
		return
	}
	n := 0
	for _, t := range []struct {
		max int64
		sl  []slice
	}{{1, []slice{{1, 1, 15}}}, {2, []slice{{1, 2, 15}, {1, 2, 10}}}, {3, []slice{{1, 3, 15}, {2, 3, 10}}}, {3, []slice{{1, 3, 15}, {1, 3, 12}, {1, 3, 10}}}, {4, []slice{{1, 4, 15}, {1, 2, 12}, {1, 4, 10}}}, {6, []slice{{1, 6, 20}, {1, 3, 15}, {1, 2, 10}}}, {5, []slice{{15, 100, 15}, {85, 100, 10}}}} {
		for few := int64(0); few < 2; few++ {
			var scores []int64
			for i := int64(0); i < t.max+2-few*3; i++ {
				scores = append(scores, 100-i)
			}
			ps, bad := run(t.max, t.sl, scores)
			cum := int64(0)
			at := 0
			for r := int64(1); r <= int64(len(ps)); r++ {
				want := int64(3)
				if r <= t.max {
					for at < len(t.sl)-1 && r*t.sl[at].den > t.max*t.sl[at].num+cum*t.sl[at].den && r > 1 {
						cum += t.max * t.sl[at].num / t.sl[at].den
						at++
					}
					want = t.sl[at].power
				}
				if ps[r-1] != want {
					bad += fmt.Sprint(" the ", r, ". of ", t.max, " gets ", ps[r-1], " instead of ", want)
				}
			}
			n++
			c.oblige(bad == "" && (len(ps) == len(scores)), "powers are given by the slices of the distribution", fmt.Sprint(t.max, t.sl, len(scores)), bad)
		}
		// equal scores, in any grouping
		for g := 1; g < 1<<uint(t.max); g++ {
			if t.max > 4 {
				break
			}
			var scores []int64
			sc := int64(50)
			for i := int64(0); i < t.max; i++ {
				if g>>uint(i)&1 != 0 {
					sc--
				}
				scores = append(scores, sc)
			}
			ps, bad := run(t.max, t.sl, scores)
			for i := 1; i < len(ps); i++ {
				if scores[i] == scores[i-1] && ps[i] != ps[i-1] || ps[i] > ps[i-1] || ps[i] <= 0 {
					bad += fmt.Sprint(scores, " give ", ps)
				}
			}
			n++
			c.oblige(bad == "" && len(ps) == len(scores), "equal scores give equal powers, lower scores none greater", fmt.Sprint(t.max, t.sl, scores), bad)
		}
	}
	c.oblige(n > 40, "enough distributions are analysed", shortFn(f), n)
	m.params = map[string]*V{}
}
