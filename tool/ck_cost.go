package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// stepOut is one outcome of one debugger step.
type stepOut struct {
	Out   Outcome
	Execs []Val // branches the instruction was executed on
	Fresh []Val // branches created
	Br    *StructV
}

// vmStep analyses one debugger step of a program whose current instruction is
// op (the rest of the listing is not skipped); the instruction's own effect is
// replaced by eff (nil: returns without effect).
func (c *Ctx) vmStep(in *Interp, st *State, op Val, o vmOpts, eff func(ctx *CallCtx) []Outcome) ([]stepOut, *VmState, error) {
	step := c.P.Method(types.NewPointer(c.P.Type("", "Vm")), "Step")
	if step == nil {
		return nil, nil, fmt.Errorf("the debugger has no Step")
	}
	o.Line = mkInt(0, intT)
	if o.Listing == nil {
		o.Listing = c.listing(3)
	}
	o.Listing = append([]Val{op}, o.Listing...)
	prev := o.Extra
	o.Extra = func(st *State, v *VmState, br, vm *StructV) {
		vu := vm.T.Underlying().(*types.Struct)
		for i := 0; i < vu.NumFields(); i++ {
			ft := vu.Field(i).Type()
			switch {
			case types.Identical(ft, v.BrPtr.(*Ptr).T):
				vm.F[i] = v.BrPtr
			case elemType(ft) != nil && types.Identical(elemType(ft), v.BrPtr.(*Ptr).T):
				vm.F[i] = in.newSlice(st, &Seq{T: v.BrPtr.(*Ptr).T, Segs: []Seg{{Kind: SegElem, V: v.BrPtr}}}, ft)
			case vu.Field(i).Name() == "Current":
				vm.F[i] = mkInt(0, ft)
			}
		}
		if prev != nil {
			prev(st, v, br, vm)
		}
	}
	v, err := c.vmState(in, st, o)
	if err != nil {
		return nil, nil, err
	}
	exec := c.method(op, "Execute")
	old := in.HookAny
	in.HookAny = func(ctx *CallCtx) ([]Outcome, bool) {
		if exec == nil || ctx.Fn != exec {
			return nil, false
		}
		ctx.St.emit(Event{Kind: "exec", Args: append([]Val{}, ctx.Args...)})
		if eff != nil {
			return eff(ctx), true
		}
		return []Outcome{{St: ctx.St, Kind: OutReturn, Vals: []Val{&Const{}}}}, true
	}
	outs := in.Call(st, step, []Val{v.VmPtr}, nil, 0)
	in.HookAny = old
	var res []stepOut
	for _, x := range outs {
		if x.Kind == OutLoop {
			continue
		}
		s := stepOut{Out: x}
		for _, e := range x.St.Events() {
			if e.Kind == "exec" && len(e.Args) > 0 {
				s.Execs = append(s.Execs, e.Args[len(e.Args)-1])
			}
		}
		s.Br, _ = x.St.get(v.Br).(*StructV)
		res = append(res, s)
	}
	return res, v, nil
}

// costOf is the AVM cost of a case in a program of the given version.
func (vc vmCase) costOf(version int64) int64 {
	o := vc.fc.Op
	if f, ok := oracleOps[vc.fc.Form.Op]; ok {
		o = f
	}
	switch x := o.Cost.(type) {
	case float64:
		return int64(x)
	case map[string]any:
		if vc.fld != nil {
			if n, ok := x[vc.fld.Name].(float64); ok {
				return int64(n)
			}
		}
		if n, ok := x[strconv.FormatInt(version, 10)].(float64); ok {
			return int64(n)
		}
		if n, ok := x["*"].(float64); ok {
			return int64(n)
		}
	}
	return 1
}

// lenSources lists the provenance types of byte strings of known length.
func (c *Ctx) lenSource(in *Interp, st *State, n int) Val {
	scope := c.P.pkg("").Pkg.Scope()
	names := scope.Names()
	sort.Strings(names)
	for _, nm := range names {
		tn, ok := scope.Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		u, ok := tn.Type().Underlying().(*types.Struct)
		if !ok || u.NumFields() != 1 || !isByteSlice(u.Field(0).Type()) {
			continue
		}
		if c.P.Method(tn.Type(), "Lengths") == nil {
			continue
		}
		q := &Seq{T: types.Typ[types.Uint8]}
		src := &Sym{Name: "payload", T: u.Field(0).Type()}
		q.Segs = []Seg{{Kind: SegChunk, Src: src, Lo: mkInt(0, nil), Hi: mkInt(int64(n), nil)}}
		return &IfaceV{Dyn: tn.Type(), V: &StructV{T: tn.Type(), F: []Val{in.newSlice(st, q, u.Field(0).Type())}}}
	}
	return nil
}

func checkP09(c *Ctx, r *Report) {
	r.Rule = "For every form of every opcode and every field it can name, abstract interpretation of one debugger step on that instruction with an arbitrary remaining budget and arbitrary version (1 and above 1 separated): on every path either the budget is known to cover the AVM's cost, is reduced by exactly that cost and the instruction is executed exactly once on that branch, or the budget is known not to cover it, stays as it was, the instruction is not executed and the branch ends. Data-dependent costs are compared for each byte length 0..130. A fresh debugger starts with one branch, an empty stack and the AVM's budget of 700."
	r.floor("instruction cost", 450)
	r.floor("length-dependent cost", 250)
	t, err := c.vmTypes()
	if err != nil {
		r.bad("types", "vm.go", "%v", err)
		return
	}
	linear := map[string]struct {
		base, per, chunk int64
		depth            int
	}{"base64_decode": {1, 1, 16, 0}, "json_ref": {25, 2, 7, 1}}
	for _, vc := range c.vmCases(r) {
		if movers[vc.fc.Form.Op] && vc.n > 1 {
			continue
		}
		runs, in := c.parseCase(r, vc)
		for _, run := range runs {
			fn := c.method(run.Ops[0], "Cost")
			pos := r.fnPos(c.method(run.Ops[0], "Execute"))
			if fn != nil {
				pos = r.fnPos(fn)
			}
			eff, _ := vc.effect()
			c.freeExec(r, in, run, vc, eff, t)
			if l, ok := linear[vc.fc.Form.Op]; ok {
				for n := int64(0); n <= 130; n++ {
					want := l.base + l.per*((n+l.chunk-1)/l.chunk)
					ts := []int64{}
					for i := range eff.pops {
						ts = append(ts, t.of(eff.pops[i]))
					}
					st := run.Out.St.clone()
					src := c.lenSource(in, st, int(n))
					r.count("length-dependent cost")
					c.checkStep(r, in, run, st, vmOpts{Types: ts, Srcs: map[int]Val{len(ts) - 1 - l.depth: src}}, fmt.Sprintf("%s/len%d", vc.key, n), pos, vc, want, 0)
				}
				continue
			}
			versions := []int64{0}
			if vc.costOf(1) != vc.costOf(2) {
				versions = []int64{1, 2, 3, 4, 5, 6, 7, 8, 9}
			}
			for _, ver := range versions {
				ts := make([]int64, len(eff.pops))
				for i := range ts {
					ts[i] = -1
				}
				r.count("instruction cost")
				c.checkStep(r, in, run, run.Out.St.clone(), vmOpts{Types: ts}, fmt.Sprintf("%s/v%d", vc.key, ver), pos, vc, vc.costOf(ver), ver)
			}
		}
	}
	c.freshVm(r)
}

// freeExec: carrying out an instruction does not itself touch any budget (Step
// alone charges for it).
func (c *Ctx) freeExec(r *Report, in *Interp, run OpRun, vc vmCase, eff effect, t vmTypes) {
	fn := c.method(run.Ops[0], "Execute")
	if fn == nil {
		return
	}
	ts := make([]int64, len(eff.pops))
	for i := range ts {
		ts[i] = t.of(eff.pops[i])
	}
	key, pos := vc.key+"/execute", r.fnPos(fn)
	st := run.Out.St.clone()
	v, err := c.vmState(in, st, vmOpts{Types: ts, Labels: caseLabels, Listing: c.listing(12), Line: mkInt(flowLine, intT)})
	if err != nil {
		r.bad(key, pos, "%v", err)
		return
	}
	r.count("execute")
	b0 := structField(st.get(v.Br), "Budget")
	outs, _ := c.execute(in, st, run.Ops[0], v)
	r.incompl(in, key, pos)
	why := ""
	for _, o := range outs {
		if o.Kind != OutReturn {
			continue
		}
		if b := structField(o.St.get(v.Br), "Budget"); b.Key() != b0.Key() {
			why = fmt.Sprintf("changes the branch's budget from %s to %s while it executes", b0.Key(), b.Key())
		}
		_, added := c.branches(in, o.St, v)
		for _, a := range added {
			p, ok := a.(*Ptr)
			if !ok {
				continue
			}
			if nb, ok := in.load(o.St, p).(*StructV); ok {
				if b := structField(nb, "Budget"); b.Key() != b0.Key() {
					why = fmt.Sprintf("a new branch starts with budget %s instead of the forking branch's", b.Key())
				}
			}
		}
	}
	r.check(why == "", key, pos, "%s %s", vc.fc.Form.Op, why)
}

func (c *Ctx) checkStep(r *Report, in *Interp, run OpRun, st *State, o vmOpts, key, pos string, vc vmCase, want, version int64) {
	var budget Val
	o.Extra = func(st *State, v *VmState, br, vm *StructV) {
		budget = structField(br, "Budget")
		if version > 0 {
			for i, f := range vm.F {
				p, ok := f.(*Ptr)
				if !ok || typeName(typeOf(f)) != "*ProcessResult" {
					continue
				}
				pr := in.load(st, p).(*StructV)
				if k := fieldIdx(pr.T, "Version"); k >= 0 {
					pr.F[k] = mkInt(version, typeOf(pr.F[k]))
				}
				vm.F[i] = p
			}
		}
	}
	steps, v, err := c.vmStep(in, st, run.Ops[0], o, nil)
	r.incompl(in, key, pos)
	if err != nil {
		r.bad(key, pos, "%v", err)
		return
	}
	paid, ended := 0, 0
	why := ""
	hasExec := c.method(run.Ops[0], "Execute") != nil
	for _, s := range steps {
		if s.Out.Kind != OutReturn || s.Br == nil {
			why = "the step can end in a panic"
			continue
		}
		f := s.Out.St.facts
		nb := structField(s.Br, "Budget")
		if e := structField(s.Out.St.get(v.Vm), "Error"); e != nil && !isNilConst(e) {
			why = "computing the cost fails: " + e.Key()
			continue
		}
		covered := f.decide(cond{op: "le", a: mkInt(want, intT), b: budget})
		if len(s.Execs) > 0 || !hasExec && nb.Key() != budget.Key() {
			paid++
			d, ok := linDiff(budget, nb)
			switch {
			case covered != 1:
				why = fmt.Sprintf("the instruction can be executed with a budget below its cost of %d", want)
			case !ok || d != want:
				why = fmt.Sprintf("the budget goes from %s to %s; the instruction costs %d", budget.Key(), nb.Key(), want)
			case hasExec && (len(s.Execs) != 1 || s.Execs[0].Key() != v.BrPtr.Key()):
				why = fmt.Sprintf("the instruction is executed %d times", len(s.Execs))
			}
			continue
		}
		ended++
		switch l, ok := constInt(structField(s.Br, "Line")); {
		case covered != 0:
			why = fmt.Sprintf("the instruction can be skipped although the budget covers its cost of %d", want)
		case nb.Key() != budget.Key():
			why = "the budget changes although the instruction is not executed"
		case !ok || l != -1:
			why = "the branch does not end when its budget is exhausted"
		}
	}
	if why == "" && (paid == 0 || ended == 0) {
		why = "the instruction is never executed, or its budget is never checked"
	}
	r.check(why == "", key, pos, "%s: %s", vc.fc.Form.Op, why)
}

// freshVm: the initial debugger state.
func (c *Ctx) freshVm(r *Report) {
	fn := c.P.Func("", "NewVm")
	if fn == nil {
		r.bad("new", "vm.go", "NewVm not found")
		return
	}
	pos := r.fnPos(fn)
	in := c.NewAnalysis(allGlobals)
	st := in.NewState()
	prT := c.P.Type("", "ProcessResult")
	pr := in.expand(st, &Sym{Name: "res", T: prT}).(*StructV)
	pu := prT.Underlying().(*types.Struct)
	for j := 0; j < pu.NumFields(); j++ {
		if sl, ok := pu.Field(j).Type().Underlying().(*types.Slice); ok && typeName(sl.Elem()) == "Op" {
			q := &Seq{T: sl.Elem()}
			for _, l := range c.listing(3) {
				q.Segs = append(q.Segs, Seg{Kind: SegElem, V: l})
			}
			pr.F[j] = in.newSlice(st, q, pu.Field(j).Type())
		}
	}
	outs := in.Call(st, fn, []Val{&Ptr{Cell: in.alloc(st, pr), T: types.NewPointer(prT)}}, nil, 0)
	r.incompl(in, "new", pos)
	n := 0
	for _, o := range outs {
		if o.Kind == OutLoop {
			continue
		}
		n++
		if o.Kind != OutReturn {
			r.bad("new/panic", pos, "starting the debugger can panic")
			continue
		}
		p, ok := o.Vals[0].(*Ptr)
		if !ok {
			r.bad("new/result", pos, "the debugger state could not be determined")
			continue
		}
		vm, _ := in.load(o.St, p).(*StructV)
		br, ok := structField(vm, "Branch").(*Ptr)
		if !ok {
			r.bad("new/branch", pos, "a fresh debugger has no current branch")
			continue
		}
		b, _ := in.load(o.St, br).(*StructV)
		bq, _ := in.seqOf(o.St, structField(vm, "Branches"))
		r.check(bq != nil && len(bq.Segs) == 1 && bq.Segs[0].Kind == SegElem && bq.Segs[0].V.Key() == br.Key(), "new/branches", pos, "a fresh debugger does not have exactly one branch")
		bud, ok := constInt(structField(b, "Budget"))
		r.check(ok && bud == 700, "new/budget", pos, "a program starts with a budget of %s instead of 700", structField(b, "Budget").Key())
		ln, ok := constInt(structField(b, "Line"))
		r.check(ok && ln == 0, "new/line", pos, "a program starts at line %s", structField(b, "Line").Key())
		sv, _ := c.stackIn(in, o.St, b)
		empty := sv != nil
		if sv != nil {
			if l, ok := constInt(in.lenOf(o.St, sv)); !ok || l != 0 {
				empty = false
			}
		}
		r.check(empty, "new/stack", pos, "a program does not start with an empty stack")
	}
	r.check(n > 0, "new/outcome", pos, "no outcome")
}

var _ *ssa.Function
