package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A04: what fails inside an operation fails the operation.

func init() { register("A04", ruleFailures) }

func ruleFailures(c *Check) {
	const rule = "a failure inside an operation is not passed over"
	live := c.P.reachable(c.P.txRoots()...)
	var handlers []*ssa.Function
	for _, m := range c.P.msgMethods() {
		handlers = append(handlers, m.Fn)
	}
	byUser := c.P.reachable(handlers...)
	// queries and genesis import as well, where there is somebody to answer to
	inImport := func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		return strings.Contains(fnPkgPath(f), "/keeper") && rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
	}
	var fs []*ssa.Function
	for _, f := range c.P.Funcs {
		if (live[f] || inImport(f)) && f.Synthetic == "" && len(f.Blocks) > 0 && strings.HasPrefix(fnPkgPath(f), modPath+"/x/") && !isGenerated(c.P, f) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return shortFn(fs[i]) < shortFn(fs[j]) })
	// What may be passed over: the account a balance belongs to need not be in the referral; a decision that cannot be
	// carried out is logged, and so is what a block starts with.
	known := map[string]string{
		"/x/referral/keeper": "absent",
		"/x/voting/keeper":   "logged",
		"/x/noding":          "logged",
	}
	// An account which is not in the referral is nobody's ancestor, and one which is no validator has no stake to watch.
	stake := map[*ssa.Function]bool{}
	if g := c.method("x/noding/keeper", "Keeper", "OnStakeChanged"); g != nil {
		stake[g] = true
	}
	lookup := func(f, g *ssa.Function) bool {
		rec := typeName(g.Signature.Results().At(0).Type())
		switch strings.TrimPrefix(fnPkgPath(f), modPath) {
		case "/x/referral/keeper":
			rc := f.Signature.Recv()
			return rec == "x/referral/types.Info" && rc != nil && !strings.HasSuffix(typeName(rc.Type()), "keeper.Keeper")
		}
		return false
	}
	sites := 0
	for _, f := range fs {
		var free []*V
		for _, fv := range f.FreeVars {
			free = append(free, Sym("free:"+fv.Name()))
		}
		var bad []string
		had := false
		stake1, _ := c.P.confined(f, stake)
		o := pathOpts{inline: func(g *ssa.Function) bool { return false }, unroll: 1, limit: 2000, outLimit: 2000, free: free,
			onCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
				if fl := st.ev["failed"]; fl != nil {
					about := false
					for _, a := range ci.Args {
						about = about || x.snap(st, a).mentions(func(y *V) bool { return y.is("err:failed") })
					}
					switch {
					case about && strings.HasSuffix(ci.Name, "Logger.Error"):
						st.ev["logged"] = Bool(true)
					case about && (strings.HasSuffix(ci.Name, "util.EmitEvent") || strings.HasSuffix(ci.Name, "util.EmitEvents")):
						st.ev["announced"] = Bool(true)
					case about && strings.HasSuffix(ci.Name, "errors.Is"):
						s2 := st.clone()
						st.ev["absent"] = Bool(true)
						return true, []Outcome{{vals: []*V{Bool(true)}, st: st}, {vals: []*V{Bool(false)}, st: s2}}
					}
				}
				rs := ci.Sig.Results()
				n := rs.Len()
				if n == 0 || !isErrorType(rs.At(n-1).Type()) {
					return false, nil
				}
				if strings.HasSuffix(ci.Name, "Iterator.Close") {
					return false, nil
				}
				if ci.Fn != nil && !anyRepo(ci.Fn) {
					switch pk := fnPkgPath(ci.Fn); {
					case strings.HasSuffix(pk, "/errors") || pk == "errors" || pk == "fmt" || strings.HasSuffix(pk, "grpc/status"):
						if ci.Sig.Results().Len() != 1 || !isErrorType(ci.Sig.Results().At(0).Type()) {
							return false, nil
						}
						if fl := st.ev["failed"]; fl == nil {
							n := ci.Fn.Name()
							fresh := !strings.HasPrefix(n, "Wrap") && !strings.HasPrefix(n, "With")
							if !fresh && len(ci.Args) > 0 {
								fresh = stripIface(x.snap(st, ci.Args[0])).hasOp("global:err:")
							}
							if fresh {
								st.ev["failed"] = rawApp("made:"+ci.Name, ci.Site)
								return true, []Outcome{{vals: []*V{rawApp("err:failed", ci.Site)}, st: st}}
							}
						}
						return false, nil
					}
				}
				if ci.Fn != nil && c.P.readOnly(ci.Fn) && lookup(f, ci.Fn) {
					return false, nil
				}
				s2 := st.clone()
				bad := x.Opaque(ci, st)
				bad.vals[n-1] = rawApp("err:failed", ci.Site)
				st.ev["failed"] = rawApp("call:"+ci.Name, ci.Site)
				good := x.Opaque(ci, s2)
				good.vals[n-1] = vNil
				return true, []Outcome{good, bad}
			}}
		for _, p := range c.paths(f, nil, o) {
			fl := p.O.st.ev["failed"]
			if fl == nil {
				continue
			}
			sites++
			had = true
			if p.O.panic {
				continue
			}
			n := f.Signature.Results().Len()
			if n > 0 && isErrorType(f.Signature.Results().At(n-1).Type()) && !p.Ok {
				continue
			}
			ev := p.O.st.ev
			told := false
			for _, v := range p.O.vals {
				told = told || !live[f] && p.X.snap(p.O.st, v).mentions(func(y *V) bool { return y.is("err:failed") })
			}
			switch {
			case told:
				continue // the answer says so
			case ev["absent"] != nil && (stake1 || known[strings.TrimPrefix(fnPkgPath(f), modPath)] == "absent"):
				continue // nothing to do for an account which is not there
			case n == 0 && ev["logged"] != nil && known[strings.TrimPrefix(fnPkgPath(f), modPath)] == "logged":
				continue // nobody to answer to
			case !byUser[f] && ev["announced"] != nil:
				continue // the automatic payment that failed is announced
			}
			bad = append(bad, fl.op+"; "+p.exit(c))
		}
		if had {
			c.oblige(len(bad) == 0, rule, shortFn(f), strings.Join(bad, "; "))
		}
	}
	c.oblige(sites > 100, "anchor", "failures", sites)
}
