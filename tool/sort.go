package main

import (
	"sort"
	"strings"
)

// sortModel orders n items with the program's own comparison and exchange:
// any order that is sorted with respect to a consistent comparison is reached
// up to the order of equal items.
func (in *Interp) sortModel(st *State, n int, less, swap func(st *State, i, j int) []Outcome) []Outcome {
	var bad []Outcome
	states := []*State{st}
	for i := 1; i < n; i++ {
		act := states
		states = nil
		for j := i; j > 0 && len(act) > 0; j-- {
			var next []*State
			for _, s := range act {
				for _, o := range less(s, j, j-1) {
					if o.Kind != OutReturn || len(o.Vals) != 1 {
						bad = append(bad, o)
						continue
					}
					var go_ []*State
					switch c := toCond(o.Vals[0]); o.St.facts.decide(c) {
					case 1:
						go_ = append(go_, o.St)
					case 0:
						states = append(states, o.St)
					default:
						s2 := o.St.clone()
						o.St.facts.assume(c)
						c.neg = !c.neg
						s2.facts.assume(c)
						go_ = append(go_, o.St)
						states = append(states, s2)
					}
					for _, g := range go_ {
						for _, w := range swap(g, j, j-1) {
							if w.Kind != OutReturn {
								bad = append(bad, w)
								continue
							}
							next = append(next, w.St)
						}
					}
				}
			}
			act = next
		}
		states = append(states, act...)
		if len(states) > 4000 {
			in.incomplete("too many orders of %d items", n)
			break
		}
	}
	var out []Outcome
	for _, s := range states {
		out = append(out, Outcome{St: s, Kind: OutReturn})
	}
	return append(out, bad...)
}

func (in *Interp) sortCall(ctx *CallCtx, name string, args []Val) ([]Outcome, bool) {
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	st := ctx.St
	unwrap := func(v Val) Val {
		if iv, ok := v.(*IfaceV); ok {
			return iv.V
		}
		return v
	}
	// elements of a slice with known length
	items := func(v Val) (*SliceV, *Seq, int, bool) {
		if isNilConst(v) {
			return nil, nil, 0, true
		}
		s, ok := in.sliceOf(st, v)
		if !ok {
			return nil, nil, 0, false
		}
		q, ok := in.seqOf(st, v)
		if !ok {
			return nil, nil, 0, false
		}
		for _, g := range q.Segs {
			if g.Kind != SegElem {
				return nil, nil, 0, false
			}
		}
		return s, q, len(q.Segs), true
	}
	exchange := func(s *SliceV) func(st *State, i, j int) []Outcome {
		return func(st *State, i, j int) []Outcome {
			q := st.get(s.Cell).(*Seq)
			pi, pj := linAdd(s.Lo, mkInt(int64(i), intT), 1, intT), linAdd(s.Lo, mkInt(int64(j), intT), 1, intT)
			a, b := seqGet(q, pi), seqGet(q, pj)
			q = seqSet(q, pi, b)
			st.heap[s.Cell] = seqSet(q, pj, a)
			return ret(st)
		}
	}
	switch name {
	case "sort.Sort", "sort.Stable":
		iv, ok := args[0].(*IfaceV)
		if !ok {
			return nil, false
		}
		fs := map[string]func(st *State, a ...Val) []Outcome{}
		for _, m := range []string{"Len", "Less", "Swap"} {
			fn := in.P.Prog.LookupMethod(iv.Dyn, nil, m)
			if fn == nil || fn.Blocks == nil {
				return nil, false
			}
			fs[m] = func(st *State, a ...Val) []Outcome {
				return in.Call(st, fn, append([]Val{iv.V}, a...), nil, ctx.Depth+1)
			}
		}
		lo := fs["Len"](st)
		if len(lo) != 1 || lo[0].Kind != OutReturn {
			return nil, false
		}
		n, ok := constInt(lo[0].St.facts.constOf(lo[0].Vals[0]))
		if !ok {
			return nil, false
		}
		at := func(m string) func(st *State, i, j int) []Outcome {
			return func(st *State, i, j int) []Outcome {
				return fs[m](st, mkInt(int64(i), intT), mkInt(int64(j), intT))
			}
		}
		return in.sortModel(lo[0].St, int(n), at("Less"), at("Swap")), true
	case "sort.Slice", "sort.SliceStable":
		s, _, n, ok := items(unwrap(args[0]))
		fv, ok2 := args[1].(*FuncV)
		if !ok || !ok2 {
			return nil, false
		}
		return in.sortModel(st, n, func(st *State, i, j int) []Outcome {
			return in.Call(st, fv.Fn, []Val{mkInt(int64(i), intT), mkInt(int64(j), intT)}, fv.Bind, ctx.Depth+1)
		}, exchange(s)), true
	case "slices.SortFunc", "slices.SortStableFunc":
		s, _, n, ok := items(args[0])
		fv, ok2 := args[1].(*FuncV)
		if !ok || !ok2 {
			return nil, false
		}
		return in.sortModel(st, n, func(st *State, i, j int) []Outcome {
			q := st.get(s.Cell).(*Seq)
			a := seqGet(q, linAdd(s.Lo, mkInt(int64(i), intT), 1, intT))
			b := seqGet(q, linAdd(s.Lo, mkInt(int64(j), intT), 1, intT))
			outs := in.Call(st, fv.Fn, []Val{a, b}, fv.Bind, ctx.Depth+1)
			for k, o := range outs {
				if o.Kind == OutReturn {
					outs[k].Vals = []Val{mkCmp("lt", o.Vals[0], mkInt(0, intT))}
				}
			}
			return outs
		}, exchange(s)), true
	case "sort.Strings", "sort.Ints", "slices.Sort":
		s, q, n, ok := items(args[0])
		if !ok {
			return nil, false
		}
		if n == 0 {
			return ret(st), true
		}
		vs := make([]Val, n)
		for i, g := range q.Segs {
			if !isConstV(g.V) {
				return nil, false
			}
			vs[i] = g.V
		}
		sort.SliceStable(vs, func(i, j int) bool {
			if a, ok := constStr(vs[i]); ok {
				b, _ := constStr(vs[j])
				return a < b
			}
			a, _ := constInt(vs[i])
			b, _ := constInt(vs[j])
			return a < b
		})
		full := st.get(s.Cell).(*Seq)
		for i, v := range vs {
			full = seqSet(full, linAdd(s.Lo, mkInt(int64(i), intT), 1, intT), v)
		}
		st.heap[s.Cell] = full
		return ret(st), true
	}
	return nil, false
}
