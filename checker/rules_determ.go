package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Nodes agree: what a node does with a block depends on the block and the stored state only.

// different on every node, or on every run
var nodeSources = map[string]string{
	"time.Now": "the clock", "time.Since": "the clock", "time.Until": "the clock", "time.After": "the clock", "time.Sleep": "the clock",
	"time.NewTimer": "the clock", "time.NewTicker": "the clock", "time.Tick": "the clock", "time.AfterFunc": "the clock",
	"math/rand": "random numbers", "math/rand/v2": "random numbers", "crypto/rand": "random numbers", "hash/maphash": "random seeds",
	"os": "the machine", "os/exec": "the machine", "os/user": "the machine", "io/ioutil": "the machine", "net": "the network", "net/http": "the network", "syscall": "the machine",
	"runtime": "the machine", "runtime/debug": "the machine", "sync": "memory shared between threads", "sync/atomic": "memory shared between threads",
	"maps.Keys": "the order of a map", "maps.Values": "the order of a map", "maps.All": "the order of a map",
	"time.LoadLocation": "the machine", "github.com/tendermint/tendermint/types/time.Now": "the clock",
	"github.com/tendermint/tendermint/libs/rand": "random numbers", "github.com/tendermint/tendermint/crypto.CRandBytes": "random numbers",
	"github.com/google/uuid": "random numbers",
}

// consensusRoots is all that a node runs to process genesis, transactions and blocks.
func (P *Program) consensusRoots() []*ssa.Function {
	r := map[*ssa.Function]bool{}
	for _, f := range P.txRoots() {
		r[f] = true
	}
	for _, m := range P.msgMethods() {
		if m.Msg == nil {
			continue
		}
		for _, n := range []string{"ValidateBasic", "GetSigners", "GetSignBytes", "Route", "Type"} {
			if f := P.methodOf(m.Msg, n); f != nil {
				r[f] = true
			}
		}
	}
	for _, f := range P.Funcs {
		if !P.isRepoFn(f) || f.Synthetic != "" {
			continue
		}
		rc := f.Signature.Recv()
		switch f.Name() {
		case "InitGenesis", "ValidateGenesis":
			r[f] = true
		case "BeginBlocker", "EndBlocker", "InitChainer", "AnteHandle":
			r[f] = true
		case "NewHandler", "NewAnteHandler":
			r[f] = rc == nil
		}
	}
	out := []*ssa.Function{}
	for f, ok := range r {
		if ok {
			out = append(out, f)
		}
	}
	return out
}

// memoryOf tells whether an address or map lies in memory that outlives the call: a package's variable or a keeper.
func memoryOf(v ssa.Value, d int) string {
	if d > 12 || v == nil {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Global:
		return "the variable " + x.Name()
	case *ssa.FieldAddr:
		if s := keeperLike(x.X.Type()); s != "" && !isLocal(x.X, 0) {
			return s
		}
		return memoryOf(x.X, d+1)
	case *ssa.Field:
		if s := keeperLike(x.X.Type()); s != "" {
			// a field of a copy; what it refers to is shared
			return s
		}
		return memoryOf(x.X, d+1)
	case *ssa.IndexAddr:
		return memoryOf(x.X, d+1)
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
					if s := memoryOf(st.Val, d+1); s != "" {
						return s
					}
				}
			}
			return ""
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok && keeperLike(fa.X.Type()) != "" {
			return keeperLike(fa.X.Type())
		}
		return memoryOf(x.X, d+1)
	case *ssa.Lookup:
		return memoryOf(x.X, d+1)
	case *ssa.Extract:
		return memoryOf(x.Tuple, d+1)
	case *ssa.Slice:
		return memoryOf(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v {
				if s := memoryOf(e, d+4); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

// isLocal: memory of this call only.
func isLocal(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return isLocal(x.X, d+1)
	}
	return false
}

// keeperLike names the type of things that are made once when the node starts.
func keeperLike(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return ""
	}
	s := strings.ToLower(n.Obj().Name())
	for _, e := range []string{"keeper", "msgserver", "queryserver", "appmodule", "appmodulebasic", "artrapp"} {
		if strings.HasSuffix(s, e) {
			return "the " + n.Obj().Name()
		}
	}
	return ""
}

// loopOf is the body of the loop with the given head.
func loopOf(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{head: true}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if !r[b] {
			r[b] = true
			for _, p := range b.Preds {
				add(p)
			}
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			add(p)
		}
	}
	return r
}

func externalName(f *ssa.Function) (pkg, full string) {
	if f == nil {
		return "", ""
	}
	pkg = fnPkgPath(f)
	return pkg, pkg + "." + f.Name()
}

// orderMatters tells why the order of a map shows in what a loop over it does, or nothing.
func (c *Check) orderMatters(rng *ssa.Range) string {
	var next *ssa.Next
	for _, r := range *rng.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	var key ssa.Value
	for _, r := range *next.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
			key = e
		}
	}
	head := next.Block()
	loop := loopOf(head)
	in := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && loop[i.Block()]
	}
	var pure func(ci *ssa.Call) bool
	pure = func(ci *ssa.Call) bool {
		if b, ok := ci.Call.Value.(*ssa.Builtin); ok {
			return b.Name() != "copy" && b.Name() != "print" && b.Name() != "println" && b.Name() != "close"
		}
		f := c.P.calleeOf(&ci.Call)
		if f == nil {
			return false
		}
		p := fnPkgPath(f)
		switch p {
		case "strings", "strconv", "bytes", "math", "unicode", "sort", "errors", "time", "fmt", "unicode/utf8":
			return !strings.HasPrefix(f.Name(), "F") || p != "fmt"
		}
		return false
	}
	early := ""
	for b := range loop {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi:
				if b == head {
					if w := c.carried(x, loop); w != "" {
						return w
					}
				}
			case *ssa.Store:
				a := ssa.Value(x.Addr)
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
					} else if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
					} else {
						break
					}
				}
				if al, ok := a.(*ssa.Alloc); !ok || !in(al) {
					return "memory is written in the order of the map"
				}
			case *ssa.MapUpdate:
				k := x.Key
				if k != key {
					if _, ok := x.Value.(*ssa.Const); !ok {
						return "entries are written in the order of the map"
					}
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					if x.Call.Args[1] != key {
						return "entries are deleted in the order of the map"
					}
					continue
				}
				if !pure(x) {
					return "calls are made in the order of the map"
				}
			case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
				return "calls are made in the order of the map"
			case *ssa.Return, *ssa.Panic:
				early = "x"
			}
		}
		for _, s := range b.Succs {
			if loop[s] || b == head {
				continue
			}
			// leaves early: with what?
			if early != "" && early != s.String() {
				return "the loop is left in different ways in the order of the map"
			}
			early = s.String()
			seen := map[*ssa.BasicBlock]bool{}
			var leak func(t *ssa.BasicBlock) string
			leak = func(t *ssa.BasicBlock) string {
				if seen[t] || loop[t] {
					return ""
				}
				seen[t] = true
				for _, i := range t.Instrs {
					for _, op := range i.Operands(nil) {
						if *op == nil || !in(*op) {
							continue
						}
						if p, ok := i.(*ssa.Phi); ok {
							used := false
							for k, e := range p.Edges {
								used = used || e == *op && loop[t.Preds[k]] && t.Preds[k] != head
							}
							if !used {
								continue
							}
						}
						return "what is found first in the map is used"
					}
				}
				for _, u := range t.Succs {
					if w := leak(u); w != "" {
						return w
					}
				}
				return ""
			}
			if w := leak(s); w != "" {
				return w
			}
		}
	}
	return ""
}

// carried tells why a value handed from one round of the loop to the next depends on the order.
func (c *Check) carried(p *ssa.Phi, loop map[*ssa.BasicBlock]bool) string {
	basic, _ := p.Type().Underlying().(*types.Basic)
	commutes := basic != nil && basic.Info()&(types.IsInteger|types.IsBoolean) != 0
	seen := map[ssa.Value]bool{p: true}
	sorted := true
	var from func(v ssa.Value) string
	from = func(v ssa.Value) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return ""
		case *ssa.Phi:
			for _, e := range x.Edges {
				if w := from(e); w != "" {
					return w
				}
			}
			return ""
		case *ssa.BinOp:
			if commutes {
				switch x.Op.String() {
				case "+", "*", "|", "&", "^":
					a, b := x.X, x.Y
					if seen[b] {
						a, b = b, a
					}
					if seen[a] && !dependsOn(b, seen, 0) {
						return ""
					}
				case "-":
					if seen[x.X] && !dependsOn(x.Y, seen, 0) {
						return ""
					}
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && seen[x.Call.Args[0]] {
				sorted = false
				return ""
			}
		}
		if i, ok := v.(ssa.Instruction); ok && !loop[i.Block()] {
			return ""
		}
		return "a value is built up in the order of the map"
	}
	consts := map[string]bool{}
	for k, e := range p.Edges {
		if loop[p.Block().Preds[k]] {
			if cv, ok := e.(*ssa.Const); ok {
				consts[cv.String()] = true
			}
			if w := from(e); w != "" {
				return w
			}
		}
	}
	if len(consts) > 1 {
		return "a value is built up in the order of the map"
	}
	if sorted {
		return ""
	}
	// the list is sorted before anything else is done with it
	var sorts []ssa.Instruction
	var uses []ssa.Instruction
	vals := map[ssa.Value]bool{}
	var collect func(v ssa.Value)
	collect = func(v ssa.Value) {
		if vals[v] {
			return
		}
		vals[v] = true
		for _, r := range *v.Referrers() {
			if loop[r.Block()] {
				continue
			}
			switch x := r.(type) {
			case *ssa.Phi:
				collect(x)
				continue
			case *ssa.MakeInterface:
				collect(x)
				continue
			case *ssa.ChangeType:
				collect(x)
				continue
			case *ssa.Store: // the list is kept in a variable (sort.Slice captures it)
				if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, ar := range *a.Referrers() {
						if u, ok := ar.(*ssa.UnOp); ok {
							collect(u)
						}
					}
					continue
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
				if f := c.P.calleeOf(&x.Call); f != nil {
					if pk := fnPkgPath(f); pk == "sort" || pk == "slices" || strings.HasPrefix(f.Name(), "Sort") {
						sorts = append(sorts, x)
						continue
					}
				}
			}
			uses = append(uses, r)
		}
	}
	collect(p)
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			ok = ok || s.Block() == u.Block() && before(s, u) || s.Block() != u.Block() && s.Block().Dominates(u.Block())
		}
		if !ok {
			return "a list is built in the order of the map and used unsorted"
		}
	}
	return ""
}

func before(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

func dependsOn(v ssa.Value, on map[ssa.Value]bool, d int) bool {
	if on[v] {
		return true
	}
	i, ok := v.(ssa.Instruction)
	if !ok || d > 10 {
		return d > 10
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && dependsOn(*op, on, d+1) {
			return true
		}
	}
	return false
}

func ruleDeterminism(c *Check) {
	const (
		kSource = "blocks are processed without regard to clock, chance, machine or network"
		kOrder  = "the order of maps does not show"
		kMem    = "everything lasting is kept in the store"
		kConc   = "blocks are processed one step after the other"
	)
	roots := c.P.consensusRoots()
	c.oblige(len(roots) > 60, "anchor", "what a node runs", len(roots))
	reach := c.P.reachable(roots...)
	n := 0
	for f := range reach {
		if !c.P.isRepoFn(f) || f.Blocks == nil {
			continue
		}
		if strings.HasSuffix(c.P.pos(f.Pos()), ".pb.go") || f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		n++
		src, mem, conc := "", "", ""
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				at := c.P.pos(i.Pos())
				if ci, ok := i.(ssa.CallInstruction); ok {
					g := ci.Common().StaticCallee()
					p, full := externalName(g)
					if g != nil && !c.P.isRepoFn(g) {
						w := nodeSources[p]
						if w == "" && g.Signature.Recv() == nil {
							w = nodeSources[full]
						}
						if p == "sync" || p == "reflect" && (g.Name() == "MapKeys" || g.Name() == "MapRange") {
							w = "memory shared between threads"
						}
						if w != "" {
							src += " " + full + " at " + at
						}
					}
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !c.P.isRepoFn(g) {
						if _, full := externalName(g); nodeSources[full] != "" && g.Signature.Recv() == nil {
							src += " " + full + " at " + at
						}
					}
				}
				switch x := i.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
					conc += " " + at
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						w := c.orderMatters(x)
						if w != "" && c.oneHook(x) {
							w = ""
						}
						c.oblige(w == "", kOrder, shortFn(f), w, " ", at)
					}
				case *ssa.Store:
					if w := memoryOf(x.Addr, 0); w != "" {
						mem += " " + w + " at " + at
					}
				case *ssa.MapUpdate:
					if w := memoryOf(x.Map, 0); w != "" {
						mem += " " + w + " at " + at
					}
				}
			}
		}
		c.oblige(src == "", kSource, shortFn(f), src)
		c.oblige(mem == "", kMem, shortFn(f), mem)
		c.oblige(conc == "", kConc, shortFn(f), conc)
	}
	c.oblige(n > 300, "anchor", "functions", n)
}

// oneHook: the map is a registry of hooks, and only one hook is ever registered for an event.
func (c *Check) oneHook(r *ssa.Range) bool {
	m := r.X.Type().Underlying().(*types.Map)
	sig, ok := m.Elem().Underlying().(*types.Signature)
	if !ok {
		return false
	}
	k := 0
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/app" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				here := false
				for _, g := range c.P.callees(ci) {
					here = here || g.Name() == "AddHook" && fnPkgPath(g) == fnPkgPath(r.Parent())
				}
				if !here {
					continue
				}
				for _, a := range cc.Args {
					if types.Identical(a.Type().Underlying(), sig) {
						k++
					}
				}
			}
		}
	}
	return k == 1
}

func init() { register("G01", ruleDeterminism) }
