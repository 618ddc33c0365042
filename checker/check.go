package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check is one run of one property's rules.
type Check struct {
	P     *Program
	ID    string
	Tier  string
	start time.Time

	Obls  []Obl
	seen  map[string]int
	notes []string
	fns   map[*ssa.Function]bool
	steps int
	calls int
	ifs   int
	runs  int
	opq   map[string]int
}

type Obl struct {
	Rule   string `json:"rule"`
	Inst   string `json:"construct"`
	OK     bool   `json:"holds"`
	Detail string `json:"detail,omitempty"`
}

func (c *Check) oblige(ok bool, rule, inst string, detail ...interface{}) bool {
	d := ""
	if !ok {
		d = fmt.Sprint(detail...)
	}
	k := rule + "|" + inst
	if i, dup := c.seen[k]; dup {
		if !ok && c.Obls[i].OK {
			c.Obls[i].OK = false
			c.Obls[i].Detail = d
		}
		return ok
	}
	c.seen[k] = len(c.Obls)
	c.Obls = append(c.Obls, Obl{Rule: rule, Inst: inst, OK: ok, Detail: d})
	return ok
}

func (c *Check) note(f string, a ...interface{}) { c.notes = append(c.notes, fmt.Sprintf(f, a...)) }

// method/fn lookups that fail closed
func (c *Check) method(rel, typ, name string) *ssa.Function {
	f := c.P.method(rel, typ, name)
	c.oblige(f != nil && f.Blocks != nil, "anchor", rel+"."+typ+"."+name, "the anchor of the rule is gone")
	if f != nil && f.Blocks == nil {
		return nil
	}
	return f
}

func (c *Check) fn(rel, name string) *ssa.Function {
	f := c.P.fn(rel, name)
	c.oblige(f != nil && f.Blocks != nil, "anchor", rel+"."+name, "the anchor of the rule is gone")
	return f
}

// explore runs the engine and records what was covered. An exhausted budget is a failed obligation.
func (c *Check) explore(cl *Client, f *ssa.Function, args []*V, st *State) []Outcome {
	x := newExec(c.P, cl)
	return c.exploreX(x, f, args, st)
}

func (c *Check) exploreX(x *Exec, f *ssa.Function, args []*V, st *State) []Outcome {
	if st == nil {
		st = newState()
	}
	outs := x.Run(f, args, st)
	c.runs++
	c.steps += x.steps
	c.calls += x.calls
	c.ifs += x.ifs
	for k := range x.fnSeen {
		c.fns[k] = true
	}
	for k, v := range x.opaque {
		c.opq[k] += v
	}
	if x.giveUp != "" {
		c.oblige(false, "decided", shortFn(f)+" ["+x.C.Name+"]", x.giveUp)
	}
	return outs
}

// succeeded: the outcome is a return that may report success.
func succeeded(x *Exec, f *ssa.Function, o Outcome) bool {
	if o.panic {
		return false
	}
	rs := f.Signature.Results()
	if rs.Len() == 0 {
		return true
	}
	last := rs.At(rs.Len() - 1).Type()
	if !isErrorType(last) || len(o.vals) == 0 {
		return true
	}
	e := o.vals[len(o.vals)-1]
	if n, ok := x.isNil(o.st, e); ok {
		return n
	}
	return true
}

var registry = map[string]func(*Check){}
var regOrder []string

func register(id string, f func(*Check)) {
	registry[id] = f
	regOrder = append(regOrder, id)
}

// known findings -----------------------------------------------------------------------------------------------------

type Known struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Inst     string `json:"construct"`
	What     string `json:"what"`
}

func loadKnown(verif string) []Known {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.json"))
	if err != nil {
		return nil
	}
	var ks struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		fmt.Fprintln(os.Stderr, "KNOWN_FINDINGS.json:", err)
		os.Exit(3)
	}
	return ks.Findings
}

func runCheck(P *Program, id, tier, verif string, seed int, loadTime time.Duration) int {
	c := &Check{P: P, ID: id, Tier: tier, start: time.Now(), seen: map[string]int{}, fns: map[*ssa.Function]bool{}, opq: map[string]int{}}
	f := registry[id]
	if f == nil {
		fmt.Println("no rules for", id)
		return 3
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("CHECKER_DEBUG") != "" {
					panic(r)
				}
				c.oblige(false, "decided", "analysis", fmt.Sprint("the analysis itself failed: ", r))
			}
		}()
		f(c)
	}()
	known := loadKnown(verif)
	bad, kn, ok := []Obl{}, []string{}, 0
	for _, o := range c.Obls {
		if o.OK {
			ok++
			continue
		}
		isK := false
		for _, k := range known {
			if k.Property == id && k.Rule == o.Rule && k.Inst == o.Inst {
				isK = true
				kn = append(kn, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, k.What))
			}
		}
		if !isK {
			bad = append(bad, o)
		}
	}
	if len(c.Obls) == 0 {
		bad = append(bad, Obl{Rule: "coverage", Inst: "no obligations", Detail: "the rules matched nothing"})
	}
	rules := map[string]int{}
	for _, o := range c.Obls {
		rules[o.Rule]++
	}
	fns := []string{}
	for f := range c.fns {
		fns = append(fns, shortFn(f))
	}
	sort.Strings(fns)
	samples := []Obl{}
	for i, o := range c.Obls {
		if i < 400 {
			samples = append(samples, o)
		}
	}
	nopq := 0
	for _, n := range c.opq {
		nopq += n
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":                   "Static analysis of /repo's current source (type-checked, SSA, call-site-resolved). Each obligation is one rule instance at a named construct; abstract executions are property-simulation runs of the dataflow engine from the named entry points.",
			"obligations":                   len(c.Obls),
			"discharged":                    ok,
			"known_findings":                len(kn),
			"obligations_by_rule":           rules,
			"obligation_list":               samples,
			"repository_packages_loaded":    len(P.Pkgs),
			"repository_functions_resolved": len(P.Funcs),
			"entry_runs":                    c.runs,
			"functions_analysed":            len(fns),
			"functions":                     fns,
			"call_sites_evaluated":          c.calls,
			"branches_evaluated":            c.ifs,
			"instructions_interpreted":      c.steps,
			"opaque_calls":                  nopq,
			"notes":                         c.notes,
		},
		"wall_s":     time.Since(c.start).Seconds() + loadTime.Seconds(),
		"violations": len(bad),
		"assumptions": []string{
			"cosmos-sdk, tendermint and the Go standard library behave as documented; calls into them are opaque or have the meaning given in the checker's intrinsics table",
			"interface calls on keepers resolve to the repository's single implementation",
		},
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 3
	}
	fmt.Printf("property %s: %d obligations, %d hold, %d known findings, %d violations; %d entry runs, %d functions, %d call sites, %.1fs\n",
		id, len(c.Obls), ok, len(kn), len(bad), c.runs, len(fns), c.calls, time.Since(c.start).Seconds())
	sort.Strings(kn)
	for i, k := range kn {
		if i == 0 || kn[i-1] != k {
			fmt.Println(k)
		}
	}
	if len(bad) > 0 {
		rp := filepath.Join(dir, id+".violation.txt")
		var s strings.Builder
		for _, o := range bad {
			fmt.Fprintf(&s, "rule %s\n  at %s\n  %s\n", o.Rule, o.Inst, o.Detail)
		}
		os.WriteFile(rp, []byte(s.String()), 0o644)
		fmt.Print(s.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	os.Remove(filepath.Join(dir, id+".violation.txt"))
	return 0
}

// wiring: which KVStore a keeper field denotes --------------------------------------------------------------------------

// storeFields maps "pkg.Type.field" of a keeper to the name of the store it is wired to in the application constructor.
func (P *Program) storeFields() map[string]string {
	if P.stores != nil {
		return P.stores
	}
	P.stores = map[string]string{}
	P.strFields = map[string]string{}
	app := P.pkg("app")
	if app == nil {
		return P.stores
	}
	for _, f := range P.Funcs {
		if f.Pkg != app {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				callee := P.calleeOf(&call.Call)
				if callee == nil || !P.isRepoFn(callee) || callee.Blocks == nil || callee.Signature.Recv() != nil || fnPkgPath(callee) == modPath+"/app" {
					continue
				}
				names := map[int]string{}
				strs := map[int]string{}
				for i, a := range call.Call.Args {
					if c, ok := a.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						strs[i] = constant.StringVal(c.Value)
					}
				}
				for i, a := range call.Call.Args {
					if n, ok := storeKeyName(a); ok {
						names[i] = n
					}
				}
				if len(names) == 0 {
					continue
				}
				x := newExec(P, &Client{Name: "wiring"})
				for _, o := range x.Run(callee, nil, newState()) {
					if o.panic || len(o.vals) == 0 {
						continue
					}
					res := x.snap(o.st, o.vals[0])
					P.collectStores(x, o.st, res, callee.Signature.Results().At(0).Type(), names, strs, 0)
				}
			}
		}
	}
	return P.stores
}

func (P *Program) collectStores(x *Exec, st *State, v *V, t types.Type, names, strs map[int]string, depth int) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 4 {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		fv := stripIface(project(v, FieldSel(t, i)))
		if fv.k == KSym && strings.HasPrefix(fv.op, "param:") {
			var n int
			fmt.Sscanf(fv.op, "param:%d:", &n)
			if nm, ok := strs[n]; ok {
				P.strFields[typeName(t)+"."+s.Field(i).Name()] = nm
			}
			if nm, ok := names[n]; ok {
				P.stores[typeName(t)+"."+s.Field(i).Name()] = nm
			}
		}
		if s.Field(i).Embedded() {
			P.collectStores(x, st, x.snap(st, fv), s.Field(i).Type(), names, strs, depth+1)
		}
	}
}

func storeKeyName(a ssa.Value) (string, bool) {
	for {
		switch v := a.(type) {
		case *ssa.MakeInterface:
			a = v.X
			continue
		case *ssa.ChangeInterface:
			a = v.X
			continue
		case *ssa.Lookup:
			if c, ok := v.Index.(*ssa.Const); ok && c.Value != nil {
				if strings.HasSuffix(v.Type().String(), "types.KVStoreKey") {
					return strings.Trim(c.Value.ExactString(), `"`), true
				}
			}
			return "", false
		}
		return "", false
	}
}

// storeOf names the KVStore a store value denotes ("" if unknown).
func (P *Program) storeOf(v *V) string {
	v = stripIface(v)
	switch {
	case v.is("kvstore"):
		k := stripIface(v.args[0])
		if k.hasOp("field:") {
			return P.storeFields()[strings.TrimPrefix(k.op, "field:")]
		}
		return ""
	case v.hasOp("call:github.com/cosmos/cosmos-sdk/store/prefix.NewStore"):
		return P.storeOf(v.args[0])
	case v.hasOp("call:github.com/cosmos/cosmos-sdk/store/cachekv.NewStore"):
		return P.storeOf(v.args[0])
	}
	return ""
}

func posOf(P *Program, in ssa.Instruction) string {
	p := in.Pos()
	if p == token.NoPos {
		p = in.Parent().Pos()
	}
	return P.pos(p)
}

// calleeOf is the static callee, also through a package-level variable that is only ever initialised with one function.
func (P *Program) calleeOf(c *ssa.CallCommon) *ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return f
	}
	if u, ok := c.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return P.globalFn(g)
		}
	}
	return nil
}

func (P *Program) globalFn(g *ssa.Global) *ssa.Function {
	if P.gfns == nil {
		P.gfns = map[*ssa.Global]*ssa.Function{}
		cnt := map[*ssa.Global]int{}
		for _, f := range P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if gg, ok := s.Addr.(*ssa.Global); ok {
							cnt[gg]++
							v := s.Val
							if ct, ok := v.(*ssa.ChangeType); ok {
								v = ct.X
							}
							if fv, ok := v.(*ssa.Function); ok {
								P.gfns[gg] = fv
							}
						}
					}
				}
			}
		}
		for gg, n := range cnt {
			if n > 1 {
				delete(P.gfns, gg)
			}
		}
	}
	return P.gfns[g]
}
