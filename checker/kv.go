package main

import (
	"sort"
	"strings"
)

// kvMachine gives the accesses to one store their meaning: what is read under a key is what was last written there on the
// path, or else what was there to begin with (init; def for other keys, nil: not known).
type kvMachine struct {
	c     *Check
	store string
	init  map[*V]*V
	order []*V // the keys of init in their order
	def   func(key *V) *V
	// numbers of the keys which an iterator over the prefix runs through, nil: all keys of init in order
	num func(key *V) (int64, bool)
}

func (m *kvMachine) at(st *State, key *V) *V {
	if r := st.ev["kv:"+m.store+":"+itoa(key.id)]; r != nil {
		return r.args[1]
	}
	if r := m.init[key]; r != nil {
		return r
	}
	if m.def != nil {
		return m.def(key)
	}
	return nil
}

// all lists the keys known to be there at the moment.
func (m *kvMachine) all(st *State) []*V {
	seen := map[*V]bool{}
	r := []*V{}
	add := func(k *V) {
		if !seen[k] {
			seen[k] = true
			if v := m.at(st, k); v != nil && v != vNil {
				r = append(r, k)
			}
		}
	}
	for _, k := range m.order {
		add(k)
	}
	more := []*V{}
	for n, p := range st.ev {
		if strings.HasPrefix(n, "kv:"+m.store+":") && !seen[p.args[0]] {
			more = append(more, p.args[0])
		}
	}
	sort.Slice(more, func(i, j int) bool { return more[i].id < more[j].id })
	for _, k := range more {
		add(k)
	}
	return r
}

func (m *kvMachine) call(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
	ret := func(v ...*V) (bool, []Outcome) { return true, []Outcome{{vals: v, st: st}} }
	if op, key, val, ok := m.c.P.kvCall(x, ci, st); ok {
		if m.c.P.storeOf(x.snap(st, ci.Args[0])) != m.store {
			return false, nil
		}
		key = normKey(orNil(key))
		if strings.HasSuffix(op, "terator") {
			return m.iterate(ci, st, m.all(st), strings.HasPrefix(op, "Reverse"))
		}
		switch op {
		case "Get":
			if v := m.at(st, key); v != nil {
				return ret(v)
			}
		case "Has":
			if v := m.at(st, key); v != nil {
				return ret(Bool(v != vNil))
			}
		case "Set", "Delete":
			if op == "Delete" || val == nil {
				val = vNil
			}
			st.ev["kv:"+m.store+":"+itoa(key.id)] = rawApp("kv", key, val)
			addTrace(st, Ev{Kind: op, Store: m.store, Recv: x.snap(st, ci.Args[0]), Args: []*V{key, val}, At: ci.Instr})
			return ret()
		}
		return false, nil
	}
	n := ci.Name
	if strings.HasSuffix(n, "types.KVStorePrefixIterator") || strings.HasSuffix(n, "types.KVStoreReversePrefixIterator") {
		if m.num == nil || m.c.P.storeOf(x.snap(st, ci.Args[0])) != m.store {
			return false, nil
		}
		ks := m.all(st)
		sel := []*V{}
		by := map[*V]int64{}
		for _, k := range ks {
			if i, ok := m.num(k); ok {
				by[k] = i
				sel = append(sel, k)
			}
		}
		sort.Slice(sel, func(i, j int) bool { return by[sel[i]] < by[sel[j]] })
		return m.iterate(ci, st, sel, strings.Contains(n, "Reverse"))
	}
	if i := strings.LastIndexByte(n, '.'); i >= 0 && len(ci.Args) > 0 && strings.HasPrefix(n, "invoke:") && strings.HasSuffix(n[:i], "Iterator") {
		it := stripIface(ci.Args[0])
		if !it.is("kviter") || it.args[2] != Sym(m.store) {
			return false, nil
		}
		pk := "kvpos:" + itoa(it.id)
		pos := int64(0)
		if p := st.ev[pk]; p != nil {
			pos, _ = intOf(p)
		}
		ks := it.args[1].args
		switch n[i+1:] {
		case "Valid":
			return ret(Bool(pos < int64(len(ks))))
		case "Next":
			st.ev[pk] = Int(pos + 1)
			return ret()
		case "Key":
			if pos < int64(len(ks)) {
				return ret(ks[pos])
			}
		case "Value":
			if pos < int64(len(ks)) {
				return ret(it.args[3].args[pos])
			}
		case "Close":
			st.ev["kvclosed:"+itoa(it.id)] = it
			return ret(vNil)
		case "Error":
			return ret(vNil)
		}
	}
	return false, nil
}

func (m *kvMachine) iterate(ci *CallInfo, st *State, ks []*V, reverse bool) (bool, []Outcome) {
	ks = append([]*V{}, ks...)
	if reverse {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	vs := []*V{}
	for _, k := range ks {
		vs = append(vs, m.at(st, k))
	}
	it := rawApp("kviter", ci.Site, List(ks...), Sym(m.store), List(vs...))
	delete(st.ev, "kvpos:"+itoa(it.id))
	return true, []Outcome{{vals: []*V{it}, st: st}}
}

// normKey is the key by the parts it is put together from.
func normKey(v *V) *V {
	parts := keyParts(v)
	if len(parts) < 2 {
		return v
	}
	return rawApp("key", parts...)
}

func keyParts(v *V) []*V {
	switch {
	case v.is("copied"):
		return append(keyParts(v.args[0]), keyParts(v.args[1])...)
	case v.is("concat"):
		return append(keyParts(v.args[0]), keyParts(v.args[1])...)
	case v.is("makeslice"):
		return nil
	case v.is("key"):
		return v.args
	}
	return []*V{v}
}

// machines tries several in turn.
func machines(ms ...func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome)) func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
	return func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
		for _, m := range ms {
			if ok, r := m(x, ci, st); ok {
				return ok, r
			}
		}
		return false, nil
	}
}
