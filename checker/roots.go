package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// msgField is the term for a field of a message.
func (c *Check) msgField(t types.Type, m *V, name string) *V {
	if t == nil {
		c.oblige(false, "anchor", "message type with field "+name, "gone")
		return nil
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return project(m, FieldSel(t, i))
		}
	}
	c.oblige(false, "anchor", typeName(t)+"."+name, "no such field")
	return nil
}

// msgServers lists, for every module's generated MsgServer interface, the methods implementing it.
type msgMethod struct {
	Module string
	Name   string
	Fn     *ssa.Function
	Msg    types.Type // the message struct
}

func (P *Program) msgMethods() []msgMethod {
	if P.msgs != nil {
		return P.msgs
	}
	for rel, p := range P.byRel {
		if !strings.HasSuffix(rel, "/types") {
			continue
		}
		o := p.Types.Scope().Lookup("MsgServer")
		if o == nil {
			continue
		}
		iface, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < iface.NumMethods(); i++ {
			m := iface.Method(i)
			for _, f := range P.implementations(iface, m) {
				if isGenerated(P, f) {
					continue
				}
				sig := m.Type().(*types.Signature)
				var mt types.Type
				if sig.Params().Len() == 2 {
					mt = sig.Params().At(1).Type().(*types.Pointer).Elem()
				}
				P.msgs = append(P.msgs, msgMethod{strings.TrimSuffix(strings.TrimPrefix(rel, "x/"), "/types"), m.Name(), f, mt})
			}
		}
	}
	sort.Slice(P.msgs, func(i, j int) bool { return P.msgs[i].Fn.String() < P.msgs[j].Fn.String() })
	return P.msgs
}

// scheduleHooks lists the functions the application registers as hooks (scheduler and referral callbacks).
func (P *Program) registeredHooks() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		if fnPkgPath(f) != modPath+"/app" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := ""
				if ci.Common().IsInvoke() {
					n = ci.Common().Method.Name()
				} else if g := ci.Common().StaticCallee(); g != nil {
					n = g.Name()
				}
				if n != "AddHook" {
					continue
				}
				for _, a := range ci.Common().Args {
					if h := hookTarget(a); h != nil {
						if o := P.unwrap(h); o != nil {
							h = o
						}
						r[h] = true
					}
				}
			}
		}
	}
	return r
}

// txRoots: what a node runs while processing blocks: message handlers, begin/end blockers, registered hooks.
func (P *Program) txRoots() []*ssa.Function {
	r := map[*ssa.Function]bool{}
	for _, m := range P.msgMethods() {
		r[m.Fn] = true
	}
	for h := range P.registeredHooks() {
		r[h] = true
	}
	for _, f := range P.Funcs {
		if rc := f.Signature.Recv(); rc != nil && (f.Name() == "BeginBlock" || f.Name() == "EndBlock") && strings.HasSuffix(typeName(rc.Type()), "AppModule") && f.Synthetic == "" {
			r[f] = true
		}
		if f.Signature.Recv() == nil && (f.Name() == "BeginBlocker" || f.Name() == "EndBlocker") {
			r[f] = true
		}
	}
	out := []*ssa.Function{}
	for f := range r {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
