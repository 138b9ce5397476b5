package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// vmCase is one instruction with some of its immediates fixed.
type vmCase struct {
	fc   formCase
	toks map[int]string
	key  string
	fld  *OrField // the named field, if the form has one
	n    int64    // the fixed small integer, if any
}

var movers = map[string]bool{"dig": true, "cover": true, "uncover": true, "bury": true, "popn": true, "dupn": true}

// vmCases enumerates instructions: every form, every field that can be named
// in it, small depths for the instructions that move stack values.
func (c *Ctx) vmCases(r *Report) []vmCase {
	var out []vmCase
	for _, fc := range c.forms(r) {
		key := fmt.Sprintf("%s/%d", fc.Op.Name, fc.N)
		if isBytesOp(fc.Op) && fc.Op.Variadic == "" {
			key = fc.Op.Name
		}
		base := map[int]string{}
		lbl := 0
		fi, ni := 0, 0
		var group string
		var need func(OrField) int64
		for i, kind := range fc.Form.Imms {
			switch {
			case kind == "label":
				lbl++
				base[i+1] = fmt.Sprintf("L%d", lbl)
			case kind == "bytes" && fc.Op.Variadic != "":
				base[i+1] = fmt.Sprintf("0x0%d", i)
			case kind == "u8" && movers[fc.Form.Op], kind == "i8":
				ni = i + 1
			default:
				if g, nd := fieldGroup(kind); g != "" {
					group, need, fi = g, nd, i+1
				}
			}
		}
		with := func(k int, s string) map[int]string {
			m := map[int]string{}
			for a, b := range base {
				m[a] = b
			}
			if k > 0 {
				m[k] = s
			}
			return m
		}
		switch {
		case fi > 0:
			for _, f := range oracleFields[group] {
				if need(f) < 0 {
					continue
				}
				f := f
				out = append(out, vmCase{fc: fc, toks: with(fi, f.Name), key: key + "/" + f.Name, fld: &f})
			}
		case ni > 0:
			for _, n := range []int64{0, 1, 2, 3, 7} {
				out = append(out, vmCase{fc: fc, toks: with(ni, strconv.FormatInt(n, 10)), key: fmt.Sprintf("%s/%d", key, n), n: n})
			}
		default:
			out = append(out, vmCase{fc: fc, toks: base, key: key})
		}
	}
	return out
}

// parseCase returns the accepting outcomes of a case.
func (c *Ctx) parseCase(r *Report, vc vmCase) ([]OpRun, *Interp) {
	pos := r.fnPos(vc.fc.Reg.Parse)
	runs, in, err := c.runParse(vc.fc.Reg, vc.fc.N, allGlobals, func(in *Interp, st *State, cc int) {
		for k, s := range vc.toks {
			c.tokenText(in, st, cc, k, s)
		}
	})
	if err != nil {
		r.bad(vc.key, pos, "%v", err)
		return nil, in
	}
	r.incompl(in, vc.key, pos)
	var out []OpRun
	seen := map[string]bool{}
	for _, run := range runs {
		if run.Out.Kind != OutReturn || len(run.Ops) != 1 {
			continue
		}
		// the debugger sees the recorded instruction only: paths that record
		// the same instruction need to be analysed once
		k := run.Ops[0].Key()
		if iv, ok := run.Ops[0].(*IfaceV); ok {
			k = iv.Key()
			if p, ok := iv.V.(*Ptr); ok {
				k = typeName(iv.Dyn) + in.load(run.Out.St, p).Key()
			}
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, run)
	}
	if len(out) == 0 {
		r.bad(vc.key+"/accepted", pos, "%s is never accepted in the form under analysis", vc.fc.Op.Name)
	}
	return out, in
}

// execute analyses the debugger's effect of an instruction. An instruction
// without an effect of its own only advances the line.
func (c *Ctx) execute(in *Interp, st *State, op Val, v *VmState) ([]Outcome, *ssa.Function) {
	fn := c.method(op, "Execute")
	if fn == nil {
		br := st.get(v.Br).(*StructV)
		nb := &StructV{T: br.T, F: append([]Val{}, br.F...)}
		if i := fieldIdx(br.T, "Line"); i >= 0 {
			nb.F[i] = linAdd(br.F[i], mkInt(1, nil), 1, intT)
		}
		st.heap[v.Br] = nb
		return []Outcome{{St: st, Kind: OutReturn}}, nil
	}
	var outs []Outcome
	for _, o := range in.Call(st, fn, []Val{op.(*IfaceV).V, v.BrPtr}, nil, 0) {
		if o.Kind != OutLoop {
			outs = append(outs, o)
		}
	}
	return outs, fn
}

// nonNop is an instruction of which the debugger knows that it is not skipped.
func (c *Ctx) nonNop() Val {
	v := c.Global("", "Pop")
	t := c.P.Type("", "PopExpr")
	if t == nil {
		return nil
	}
	return &IfaceV{Dyn: types.NewPointer(t), V: v}
}

func (c *Ctx) listing(n int) []Val {
	var out []Val
	for i := 0; i < n; i++ {
		out = append(out, c.nonNop())
	}
	return out
}

var caseLabels = map[string]int64{"L1": 3, "L2": 5, "L3": 7}

// effect is the AVM's stack effect of a case: the types it pops (bottom
// first) and, given the popped values, what it pushes.
type effect struct {
	pops   string
	pushes string
	move   func(e []Val) []Val // nil: pushes fresh values of the given types
}

func (vc vmCase) effect() (effect, bool) {
	o := vc.fc.Op
	if f, ok := oracleOps[vc.fc.Form.Op]; ok {
		o = f
	}
	e := effect{pops: o.Pops, pushes: o.Pushes}
	n := int(vc.n)
	switch vc.fc.Form.Op {
	case "pop":
		e.move = func(e []Val) []Val { return nil }
	case "dup":
		e.move = func(e []Val) []Val { return []Val{e[0], e[0]} }
	case "dup2":
		e.move = func(e []Val) []Val { return []Val{e[0], e[1], e[0], e[1]} }
	case "swap":
		e.move = func(e []Val) []Val { return []Val{e[1], e[0]} }
	case "dig":
		e.pops = strings.Repeat(".", n+1)
		e.move = func(e []Val) []Val { return append(append([]Val{}, e...), e[0]) }
	case "cover":
		e.pops = strings.Repeat(".", n+1)
		e.move = func(e []Val) []Val { return append([]Val{e[n]}, e[:n]...) }
	case "uncover":
		e.pops = strings.Repeat(".", n+1)
		e.move = func(e []Val) []Val { return append(append([]Val{}, e[1:]...), e[0]) }
	case "bury":
		if n == 0 {
			return e, false
		}
		e.pops = strings.Repeat(".", n+1)
		e.move = func(e []Val) []Val {
			q := append([]Val{}, e[:n]...)
			q[0] = e[n]
			return q
		}
	case "popn":
		e.pops = strings.Repeat(".", n)
		e.move = func(e []Val) []Val { return nil }
	case "dupn":
		e.pops = "."
		e.move = func(e []Val) []Val {
			var q []Val
			for i := 0; i <= n; i++ {
				q = append(q, e[0])
			}
			return q
		}
	case "match":
		e.pops = strings.Repeat(".", vc.fc.N+1)
	case "pushints":
		e.pushes = strings.Repeat("U", vc.fc.N)
	case "pushbytess":
		e.pushes = strings.Repeat("B", vc.fc.N)
	case "frame_dig", "frame_bury", "retsub", "proto", "callsub":
		return e, false // subroutine frames: P10
	}
	if vc.fld != nil && vc.fld.Type != "" && strings.Contains(e.pushes, ".") && vc.fc.Form.Op != "json_ref" {
		e.pushes = strings.Replace(e.pushes, ".", vc.fld.Type, 1)
	}
	return e, true
}

// typeVectors enumerates the data types of the popped values.
func typeVectors(t vmTypes, pops string, move bool) [][]int64 {
	all := []int64{t.Any, t.U, t.B}
	if move || len(pops) > 5 {
		var mixed []int64
		for i := range pops {
			mixed = append(mixed, all[i%3])
		}
		return [][]int64{mixed}
	}
	out := [][]int64{{}}
	for range pops {
		var nx [][]int64
		for _, p := range out {
			for _, a := range all {
				nx = append(nx, append(append([]int64{}, p...), a))
			}
		}
		out = nx
	}
	return out
}

func checkP08(c *Ctx, r *Report) {
	r.Rule = "For every form of every opcode, every field it can name and small depths of the stack-moving opcodes: abstract interpretation of the instruction's debugger effect on a stack of arbitrary depth whose top values have each combination of data types (values and everything below arbitrary). A combination the AVM accepts must succeed on every path and leave exactly the AVM's result (untouched remainder, then the pushed types; for stack-moving opcodes the very same values in the AVM's order); a combination with a value of the wrong type must stop with an error on every path, as must a stack with one value too few."
	r.floor("stack effect", 2000)
	r.floor("stack underflow", 300)
	t, err := c.vmTypes()
	if err != nil {
		r.bad("types", "vm.go", "%v", err)
		return
	}
	tn := map[int64]string{t.Any: "any", t.U: "uint64", t.B: "bytes", t.None: "none"}
	for _, vc := range c.vmCases(r) {
		eff, ok := vc.effect()
		runs, in := c.parseCase(r, vc)
		for _, run := range runs {
			fn := c.method(run.Ops[0], "Execute")
			pos := r.fnPos(vc.fc.Reg.Parse)
			if fn != nil {
				pos = r.fnPos(fn)
			}
			if !ok {
				if vc.fc.Form.Op == "bury" {
					c.mustFail(r, in, run, vc.key+"/depth0", pos, vmOpts{Types: []int64{t.Any, t.Any}}, "bury 0")
				}
				continue
			}
			if fn == nil && (eff.pops != "" || eff.pushes != "") {
				r.bad(vc.key+"/effect", pos, "%s has no effect in the debugger, but pops %q and pushes %q in the AVM", vc.fc.Form.Op, eff.pops, eff.pushes)
				continue
			}
			for _, ts := range typeVectors(t, eff.pops, eff.move != nil) {
				var names []string
				wrong := false
				for i, x := range ts {
					names = append(names, tn[x])
					if w := t.of(eff.pops[i]); w != t.Any && x != t.Any && x != w {
						wrong = true
					}
				}
				k := vc.key + "/" + strings.Join(names, ",")
				r.count("stack effect")
				st := run.Out.St.clone()
				v, err := c.vmState(in, st, vmOpts{Types: ts, Labels: caseLabels, Listing: c.listing(10)})
				if err != nil {
					r.bad(k, pos, "%v", err)
					continue
				}
				outs, _ := c.execute(in, st, run.Ops[0], v)
				r.incompl(in, k, pos)
				good := len(outs) > 0
				why := "no outcome"
				for _, o := range outs {
					if wrong {
						if o.Kind != OutPanic {
							good, why = false, "accepts a value of the wrong type"
						}
						continue
					}
					if o.Kind != OutReturn {
						good, why = false, "can fail: "+o.Pan.Key()
						continue
					}
					q, ok := c.stackOf(in, o.St, v)
					if !ok {
						good, why = false, "the resulting stack could not be determined"
						continue
					}
					if msg := matchStack(q, v.Elems, eff, t, tn); msg != "" {
						good, why = false, msg
					}
				}
				r.check(good, k, pos, "%s on a stack ending in (%s): %s", vc.fc.Form.Op, strings.Join(names, ", "), why)
			}
			if n := len(eff.pops); n > 0 {
				ts := make([]int64, n-1)
				for i := range ts {
					ts[i] = t.of(eff.pops[i+1])
				}
				r.count("stack underflow")
				c.mustFail(r, in, run, vc.key+"/underflow", pos, vmOpts{Types: ts, Closed: true, Labels: caseLabels, Listing: c.listing(10)}, fmt.Sprintf("%s with only %d values on the stack", vc.fc.Form.Op, n-1))
			}
		}
	}
}

func (c *Ctx) mustFail(r *Report, in *Interp, run OpRun, key, pos string, o vmOpts, what string) {
	st := run.Out.St.clone()
	v, err := c.vmState(in, st, o)
	if err != nil {
		r.bad(key, pos, "%v", err)
		return
	}
	outs, _ := c.execute(in, st, run.Ops[0], v)
	r.incompl(in, key, pos)
	good := len(outs) > 0
	for _, x := range outs {
		if x.Kind != OutPanic {
			good = false
		}
	}
	r.check(good, key, pos, "%s is not reported as an error", what)
}

func matchStack(q *Seq, e []Val, eff effect, t vmTypes, tn map[int64]string) string {
	segs := q.Segs
	if len(segs) == 0 || segs[0].Kind != SegChunk || segs[0].Src == nil || segs[0].Src.Key() != "deep" || segs[0].Lo.Key() != "0" || segs[0].Hi.Key() != "len(deep)" {
		return "the values below its operands do not stay as they were: " + q.Key()
	}
	segs = segs[1:]
	want := len(eff.pushes)
	var mv []Val
	if eff.move != nil {
		mv = eff.move(e)
		want = len(mv)
	}
	if len(segs) != want {
		return fmt.Sprintf("leaves %d values instead of %d: %s", len(segs), want, q.Key())
	}
	for i, g := range segs {
		if g.Kind != SegElem {
			return "the resulting stack could not be determined: " + q.Key()
		}
		if mv != nil {
			if g.V.Key() != mv[i].Key() {
				return fmt.Sprintf("value %d of the result is %s instead of %s", i, g.V.Key(), mv[i].Key())
			}
			continue
		}
		sv, ok := g.V.(*StructV)
		if !ok {
			return "value " + g.V.Key() + " of the result is not known"
		}
		got, ok := constInt(structField(sv, "T"))
		if !ok || got != t.of(eff.pushes[i]) {
			return fmt.Sprintf("value %d of the result has type %s instead of %s", i, structField(sv, "T").Key(), tn[t.of(eff.pushes[i])])
		}
	}
	return ""
}
