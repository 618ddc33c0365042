package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// R08: what is told of a network is what is on record of it.

func init() { register("R08", ruleNetworkTold) }

func ruleNetworkTold(c *Check) {
	const (
		kSum   = "the coins told of a network are those of its open levels"
		kLines = "a higher status opens no fewer lines"
		kField = "what is told of an account is what is on its record"
	)
	m := c.refMachine()
	if m == nil {
		return
	}
	s := c.statusFns(m)
	get := c.method(refK, "Keeper", "Get")
	if s == nil || get == nil {
		return
	}
	k, ctx, acc := Sym("k"), Sym("ctx"), Sym("acc")
	var coins, dels []*V
	for i := 0; i < 11; i++ {
		coins = append(coins, Sym("coins"+itoa(i)))
		dels = append(dels, Sym("delegated"+itoa(i)))
	}
	with := func(st int64) *V {
		r := update(recSym(acc), m.sel("Status"), Int(st))
		r = update(r, m.sel("Coins"), List(coins...))
		return update(r, m.sel("Delegated"), List(dels...))
	}
	run := func(f *ssa.Function, rec *V, args ...*V) (out []*V, where string) {
		o := pathOpts{inline: anyRepo, unroll: 14, hyp: wellCoded, onCall: func(x *Exec, ci *CallInfo, st *State) (bool, []Outcome) {
			if ci.Fn == get {
				if stripIface(x.snap(st, ci.Args[len(ci.Args)-1])) != acc {
					return false, nil
				}
				return true, []Outcome{{vals: []*V{rec, vNil}, st: st}}
			}
			return false, nil
		}}
		for _, p := range c.paths(f, append([]*V{k, ctx, acc}, args...), o) {
			if p.O.panic || !p.Ok {
				out, where = append(out, nil), p.exit(c)
				continue
			}
			out = append(out, p.X.snap(p.O.st, p.O.vals[0]))
		}
		return
	}
	lines := map[int64]int64{}
	lo := c.method(refT, "Status", "LinesOpened")
	if lo == nil {
		return
	}
	for i, st := range s.all {
		for _, p := range c.paths(lo, []*V{Int(st)}, pathOpts{inline: anyRepo}) {
			n, ok := intOf(p.O.vals[0])
			lines[st] = n
			want := int64(4 + 2*i)
			if want > 10 {
				want = 10
			}
			c.oblige(ok && n == want, kLines, fmt.Sprint("status ", st), n, " due ", want)
		}
		c.oblige(lines[st] > 0, kLines, fmt.Sprint("status ", st), "not known")
	}
	for _, t := range []struct {
		f    string
		l    []*V
		zero bool // 0 is without limit
	}{{"GetCoinsInNetwork", coins, true}, {"GetDelegatedInNetwork", dels, true}} {
		f := c.method(refK, "Keeper", t.f)
		if f == nil {
			continue
		}
		for _, st := range s.all {
			for depth := int64(0); depth <= 12; depth++ {
				if depth == 0 && !t.zero {
					continue
				}
				d := lines[st]
				if depth < d && depth > 0 {
					d = depth
				}
				want := lin{}
				for i := int64(0); i <= d && i < 11; i++ {
					want = want.plus(lin{t.l[i]: 1}, 1)
				}
				vs, w := run(f, with(st), Int(depth))
				good := len(vs) > 0
				got := ""
				for _, v := range vs {
					if v == nil {
						good = false
						continue
					}
					l := linOf(v)
					if len(l.plus(want, -1)) > 0 {
						good, got = false, l.String()
					}
				}
				c.oblige(good, kSum, fmt.Sprint(t.f, " status ", st, " depth ", depth), got, w)
			}
		}
	}
	for f, field := range map[string]string{"GetStatus": "Status", "GetParent": "Referrer", "GetChildren": "Referrals"} {
		fn := c.method(refK, "Keeper", f)
		if fn == nil {
			continue
		}
		r := recSym(acc)
		vs, w := run(fn, r)
		good := len(vs) > 0
		for _, v := range vs {
			good = good && v != nil && v == m.field(r, field)
		}
		c.oblige(good, kField, f, fmt.Sprint(vs), w)
	}
}
