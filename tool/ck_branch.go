package main

import (
	"fmt"
	"go/types"
	"strings"
)

// sharedCells are the heap cells reachable from a branch, without those that
// belong to the debugger as a whole.
func (c *Ctx) ownCells(in *Interp, st *State, v Val, skip map[int]bool, out map[int]string, path string) {
	switch v := v.(type) {
	case *Ptr:
		if skip[v.Cell] || out[v.Cell] != "" {
			return
		}
		if x := st.heap[v.Cell]; x != nil {
			out[v.Cell] = path
			c.ownCells(in, st, x, skip, out, path)
		}
	case *SliceV:
		if x := st.heap[v.Cell]; x != nil && out[v.Cell] == "" && !skip[v.Cell] {
			out[v.Cell] = path
			for _, a := range v.Alias {
				if !skip[a] && out[a] == "" {
					out[a] = path
				}
			}
		}
	case *MapRef:
		out[v.Cell] = path
	case *StructV:
		u, _ := und(v.T).(*types.Struct)
		for i, f := range v.F {
			p := path
			if p == "" && u != nil && i < u.NumFields() {
				p = u.Field(i).Name()
			}
			c.ownCells(in, st, f, skip, out, p)
		}
	}
}

// content renders a branch field without the identity of the memory it lives in.
func (c *Ctx) content(in *Interp, st *State, v Val, d int) string {
	switch x := v.(type) {
	case *Ptr:
		if d > 0 && st.heap[x.Cell] != nil {
			return "&" + c.content(in, st, in.load(st, x), d-1)
		}
	case *SliceV:
		if q, ok := in.seqOf(st, x); ok {
			return q.Key()
		}
	case *StructV:
		var p []string
		for _, f := range x.F {
			p = append(p, c.content(in, st, f, d))
		}
		return "{" + strings.Join(p, ",") + "}"
	case *Sym, *Term:
		if q, ok := in.seqOf(st, v); ok && elemType(typeOf(v)) != nil {
			return q.Key()
		}
	}
	return v.Key()
}

func checkP18(c *Ctx, r *Report) {
	r.Rule = "For every branching instruction, abstract interpretation of its debugger effect on an arbitrary branch: every branch it creates gets an identifier no other branch has, the same stack, scratch space, frames, trace and budget as the branch it forks from, and shares no mutable memory with it or with the other new branches. For every other instruction: nothing of the debugger outside the executing branch changes, and within it only the stack (and, for store, exactly the addressed scratch slot with exactly the stored value)."
	r.floor("fork", 4)
	r.floor("frame condition", 400)
	t, err := c.vmTypes()
	if err != nil {
		r.bad("types", "vm.go", "%v", err)
		return
	}
	for _, vc := range c.vmCases(r) {
		targets, kind := flowTargets(vc)
		if kind == "frame" || kind == "call" {
			continue
		}
		eff, ok := vc.effect()
		if !ok {
			continue
		}
		runs, in := c.parseCase(r, vc)
		for _, run := range runs {
			pos := r.fnPos(vc.fc.Reg.Parse)
			if fn := c.method(run.Ops[0], "Execute"); fn != nil {
				pos = r.fnPos(fn)
			}
			ts := make([]int64, len(eff.pops))
			for i := range ts {
				ts[i] = t.of(eff.pops[i])
			}
			st := run.Out.St.clone()
			v, err := c.vmState(in, st, vmOpts{Types: ts, Labels: caseLabels, Listing: c.listing(12), Line: mkInt(flowLine, intT)})
			if err != nil {
				r.bad(vc.key, pos, "%v", err)
				continue
			}
			b0 := st.get(v.Br).(*StructV)
			vm0 := st.get(v.Vm).(*StructV)
			id0 := structField(vm0, "Id")
			pre := st.clone()
			outs, _ := c.execute(in, st, run.Ops[0], v)
			r.incompl(in, vc.key, pos)
			for _, o := range outs {
				if o.Kind != OutReturn {
					continue
				}
				if kind == "fork" {
					r.count("fork")
					c.forked(r, in, vc, o, v, b0, id0, len(targets), pos)
					continue
				}
				r.count("frame condition")
				why := ""
				vm1, _ := o.St.get(v.Vm).(*StructV)
				vu := vm0.T.Underlying().(*types.Struct)
				for i := 0; vm1 != nil && i < vu.NumFields(); i++ {
					if c.content(in, pre, vm0.F[i], 0) != c.content(in, o.St, vm1.F[i], 0) {
						why = "changes the debugger's " + vu.Field(i).Name()
					}
				}
				b1, _ := o.St.get(v.Br).(*StructV)
				bu := b0.T.Underlying().(*types.Struct)
				for i := 0; b1 != nil && i < bu.NumFields(); i++ {
					n := bu.Field(i).Name()
					switch n {
					case "Line", "Stack":
						continue
					case "Name":
						if kind == "exit" {
							continue
						}
					case "Scratch":
						if op := vc.fc.Form.Op; op == "store" || op == "stores" {
							continue
						}
					}
					if a, b := c.content(in, pre, b0.F[i], 1), c.content(in, o.St, b1.F[i], 1); a != b {
						why = fmt.Sprintf("changes the branch's %s from %.80s to %.80s", n, a, b)
					}
				}
				if vm1 == nil || b1 == nil {
					why = "the debugger state could not be determined"
				}
				r.check(why == "", vc.key+"/frame", pos, "%s %s", vc.fc.Form.Op, why)
			}
		}
	}
	c.scratch(r, t)
}

func (c *Ctx) forked(r *Report, in *Interp, vc vmCase, o Outcome, v *VmState, b0 *StructV, id0 Val, n int, pos string) {
	_, added := c.branches(in, o.St, v)
	vm1 := o.St.get(v.Vm).(*StructV)
	why := ""
	if len(added) != n {
		why = fmt.Sprintf("creates %d branches for %d labels", len(added), n)
	}
	if d, ok := linDiff(structField(vm1, "Id"), id0); !ok || d != int64(n) {
		why = fmt.Sprintf("the next free branch identifier goes from %s to %s although %d branches were created", id0.Key(), structField(vm1, "Id").Key(), n)
	}
	b1, _ := o.St.get(v.Br).(*StructV)
	skip := map[int]bool{v.Vm: true}
	all := []map[int]string{{}}
	c.ownCells(in, o.St, b1, skip, all[0], "")
	ids := map[int64]bool{}
	for i, a := range added {
		p, ok := a.(*Ptr)
		if !ok {
			why = "creates a branch that could not be determined"
			continue
		}
		nb, ok := in.load(o.St, p).(*StructV)
		if !ok || p.Cell == v.Br {
			why = "creates a branch that could not be determined"
			continue
		}
		d, ok := linDiff(structField(nb, "Id"), id0)
		if !ok || d < 0 || d >= int64(n) || ids[d] {
			why = fmt.Sprintf("branch %d gets identifier %s, which is not a fresh one", i, structField(nb, "Id").Key())
		}
		ids[d] = true
		u := nb.T.Underlying().(*types.Struct)
		for j := 0; j < u.NumFields(); j++ {
			switch nm := u.Field(j).Name(); nm {
			case "Id", "Line", "Name":
			default:
				if x, y := c.content(in, o.St, b1.F[j], 1), c.content(in, o.St, nb.F[j], 1); x != y {
					why = fmt.Sprintf("the new branch's %s is %.90s instead of the forking branch's %.90s", nm, y, x)
				}
			}
		}
		cells := map[int]string{p.Cell: "branch"}
		c.ownCells(in, o.St, nb, skip, cells, "")
		for k, m := range all {
			for cell, name := range cells {
				if _, ok := m[cell]; ok {
					with := "the forking branch"
					if k > 0 {
						with = "another new branch"
					}
					why = fmt.Sprintf("a new branch shares the memory of its %s with %s", name, with)
				}
			}
		}
		all = append(all, cells)
	}
	r.check(why == "", vc.key+"/fork", pos, "%s: %s", vc.fc.Form.Op, why)
}

// scratch analyses the scratch space instructions.
func (c *Ctx) scratch(r *Report, t vmTypes) {
	r.floor("scratch slot", 9)
	mk := func(key string) *flow {
		in := c.NewAnalysis(allGlobals)
		st := in.NewState()
		f := &flow{c: c, r: r, in: in, st: st, key: key, pos: "vm.go"}
		v, err := c.vmState(in, st, vmOpts{Types: []int64{t.U, t.Any}, Labels: caseLabels, Listing: c.listing(12), Line: mkInt(flowLine, intT)})
		if err != nil {
			f.fail("%v", err)
			return f
		}
		f.v = v
		r.count("scratch slot")
		return f
	}
	slot := func(f *flow, i int64) (string, bool) {
		s := f.br("Scratch")
		if p, ok := s.(*Ptr); ok {
			s = f.in.load(f.st, p)
		}
		sv, ok := f.in.expand(f.st, s).(*StructV)
		if !ok || len(sv.F) != 1 {
			return "", false
		}
		v := seqGetVal(f.in, f.st, sv.F[0], i)
		if v == nil {
			return "", false
		}
		return v.Key(), true
	}
	for _, i := range []int64{0, 1, 100, 255} {
		key := fmt.Sprintf("store/%d", i)
		f := mk(key)
		if f.bad {
			continue
		}
		var before []string
		others := []int64{0, 1, 2, 100, 254, 255}
		for _, j := range others {
			s, _ := slot(f, j)
			before = append(before, s)
		}
		val := f.v.Elems[1].Key()
		if !f.exec(fmt.Sprintf("store %d", i), OutReturn) {
			continue
		}
		for k, j := range others {
			s, ok := slot(f, j)
			want := before[k]
			if j == i {
				want = val
			}
			if !ok || s != want {
				f.fail("after store %d slot %d holds %s instead of %s", i, j, s, want)
			}
		}
		// and load pushes a value that comes from that slot
		if !f.bad && f.exec(fmt.Sprintf("load %d", i), OutReturn) {
			q, ok := c.stackOf(f.in, f.st, f.v)
			if !ok || len(q.Segs) == 0 || !strings.Contains(q.Segs[len(q.Segs)-1].V.Key(), val) {
				f.fail("load %d after store %d does not push the stored value", i, i)
			}
		}
		if !f.bad {
			r.ok(key)
		}
		key = fmt.Sprintf("stores/%d", i)
		f = mk(key)
		if f.bad {
			continue
		}
		f.exec("pop", OutReturn)
		f.exec("pop", OutReturn)
		f.exec(fmt.Sprintf("int %d", i), OutReturn)
		f.exec("int 77", OutReturn)
		st := f.stackTop()
		if f.bad || st == nil {
			f.fail("the stack could not be determined")
			continue
		}
		if f.exec("stores", OutReturn) {
			if s, ok := slot(f, i); !ok || s != st.Key() {
				f.fail("after stores to slot %d it holds %s instead of %s", i, s, st.Key())
			}
			for k, j := range others {
				if s, _ := slot(f, j); j != i && s != before[k] {
					f.fail("stores to slot %d changes slot %d to %s", i, j, s)
				}
			}
		}
		if !f.bad {
			r.ok(key)
		}
	}
	f := mk("stores/256")
	if !f.bad {
		f.exec("pop", OutReturn)
		f.exec("pop", OutReturn)
		f.exec("int 256", OutReturn)
		f.exec("int 77", OutReturn)
		if f.exec("stores", OutPanic) {
			r.ok("stores/256")
		}
	}
}

func (f *flow) stackTop() Val {
	q, ok := f.c.stackOf(f.in, f.st, f.v)
	if !ok || len(q.Segs) == 0 || q.Segs[len(q.Segs)-1].Kind != SegElem {
		return nil
	}
	return q.Segs[len(q.Segs)-1].V
}

func seqGetVal(in *Interp, st *State, v Val, i int64) Val {
	if q, ok := v.(*Seq); ok {
		return seqGet(q, mkInt(i, nil))
	}
	if q, ok := in.seqOf(st, v); ok {
		return seqGet(q, mkInt(i, nil))
	}
	return in.indexVal(st, v, mkInt(i, intT), elemType(typeOf(v)))
}

func checkP19(c *Ctx, r *Report) {
	r.Rule = "Abstract interpretation of Vm.Step, Run, Switch and SetBreakpoints with the effect of the current instruction replaced by an arbitrary one (advances, ends the branch, fails): a failing instruction is contained and reported, errors and triggered breakpoints of earlier steps are cleared, the step executes on the current branch only, stops at the next executable line (or ends the branch at the end of the listing), hands over to the next live branch in turn, reports exactly the breakpoints at the line reached; Run stops exactly at the end, an error or a breakpoint; Switch selects exactly the branch with the given id; only executable lines inside the listing can carry breakpoints."
	r.floor("step", 30)
	op := c.nonNop()
	step := c.P.Method(types.NewPointer(c.P.Type("", "Vm")), "Step")
	if op == nil || step == nil {
		r.bad("step", "vm.go", "Vm.Step or the executable instruction under analysis not found")
		return
	}
	pos := r.fnPos(step)
	advance := func(to func(Val) Val) func(ctx *CallCtx) []Outcome {
		return func(ctx *CallCtx) []Outcome {
			p := ctx.Args[len(ctx.Args)-1].(*Ptr)
			br := ctx.In.load(ctx.St, p).(*StructV)
			nb := &StructV{T: br.T, F: append([]Val{}, br.F...)}
			i := fieldIdx(br.T, "Line")
			nb.F[i] = to(br.F[i])
			ctx.In.store(ctx.St, p, nb)
			return []Outcome{{St: ctx.St, Kind: OutReturn, Vals: []Val{&Const{}}}}
		}
	}
	next := advance(func(l Val) Val { return linAdd(l, mkInt(1, nil), 1, intT) })
	boom := &IfaceV{Dyn: types.Typ[types.String], V: &Sym{Name: "boom", T: types.Typ[types.String]}}
	eachStep := func(key string, mk func(in *Interp) vmOpts, eff func(*CallCtx) []Outcome, f func(in *Interp, s stepOut, v *VmState) string) {
		r.count("step")
		in := c.NewAnalysis(allGlobals)
		st := in.NewState()
		ss, v, err := c.vmStep(in, st, op, mk(in), eff)
		if err != nil {
			r.bad(key, pos, "%v", err)
			return
		}
		r.incompl(in, key, pos)
		why := ""
		n := 0
		for _, s := range ss {
			if s.Out.Kind != OutReturn {
				why = "a step of the debugger can panic: " + s.Out.Pan.Key()
				continue
			}
			n++
			if w := f(in, s, v); w != "" {
				why = w
			}
		}
		if why == "" && n == 0 {
			why = "no outcome"
		}
		r.check(why == "", key, pos, "%s", why)
	}
	vmf := func(s stepOut, v *VmState, n string) Val { return structField(s.Out.St.get(v.Vm), n) }
	// containment
	eachStep("failing", func(in *Interp) vmOpts { return vmOpts{} }, func(ctx *CallCtx) []Outcome {
		return []Outcome{{St: ctx.St, Kind: OutPanic, Pan: boom}}
	}, func(in *Interp, s stepOut, v *VmState) string {
		e := vmf(s, v, "Error")
		if len(s.Execs) > 0 && e.Key() != boom.Key() {
			return "an instruction's failure is reported as " + e.Key()
		}
		if len(s.Execs) == 0 && !isNilConst(e) {
			return "an error is reported although no instruction failed"
		}
		return ""
	})
	// cleared by the next step
	eachStep("clears", func(in *Interp) vmOpts {
		return vmOpts{Extra: func(st *State, v *VmState, br, vm *StructV) {
			if i := fieldIdx(vm.T, "Error"); i >= 0 {
				vm.F[i] = boom
			}
		}}
	}, next, func(in *Interp, s stepOut, v *VmState) string {
		if e := vmf(s, v, "Error"); !isNilConst(e) {
			return "the error of an earlier step is still reported after a successful one"
		}
		for _, x := range s.Execs {
			if x.Key() != v.BrPtr.Key() {
				return "the instruction is executed on a branch other than the current one"
			}
		}
		if len(s.Execs) > 1 {
			return "the instruction is executed more than once"
		}
		return ""
	})
	// nothing to do
	eachStep("ended", func(in *Interp) vmOpts {
		return vmOpts{Extra: func(st *State, v *VmState, br, vm *StructV) {
			br.F[fieldIdx(br.T, "Line")] = mkInt(-1, intT)
			i := fieldIdx(vm.T, "Branch")
			vm.F[i] = zeroOf(typeOf(vm.F[i]))
		}}
	}, next, func(in *Interp, s stepOut, v *VmState) string {
		if len(s.Execs) > 0 {
			return "an instruction is executed although every branch has ended"
		}
		if !isNilConst(vmf(s, v, "Branch")) {
			return "a branch that has ended becomes current"
		}
		return ""
	})
	// instructions that are not executed
	nops := c.nopOps()
	r.check(len(nops) >= 4, "nops", pos, "labels, pragmas, comments and empty lines are not all skipped: found %d kinds", len(nops))
	for pat := 0; pat < 16; pat++ {
		var list []Val
		desc := ""
		for i := 0; i < 4; i++ {
			if pat&(1<<i) != 0 && len(nops) > 0 {
				list = append(list, nops[i%len(nops)])
				desc += "n"
			} else {
				list = append(list, op)
				desc += "x"
			}
		}
		want := int64(-1)
		for i := 0; i < 4; i++ {
			if pat&(1<<i) == 0 {
				want = int64(i + 1)
				break
			}
		}
		for bp := int64(-2); bp <= 4; bp++ {
			if bp >= 0 && (bp == 0 || pat&(1<<(bp-1)) != 0) {
				continue
			}
			if bp == -1 {
				continue
			}
			key := fmt.Sprintf("skip/%s/bp%d", desc, bp)
			o := func(in *Interp) vmOpts {
				return vmOpts{Listing: list, Extra: func(st *State, v *VmState, br, vm *StructV) {
					br.F[fieldIdx(br.T, "Budget")] = mkInt(100, intT)
					br.F[fieldIdx(br.T, "Id")] = mkInt(0, intT)
					if i := fieldIdx(vm.T, "Breakpoints"); i >= 0 && bp >= 0 {
						bt := elemType(typeOf(vm.F[i]))
						e := zeroOf(bt).(*StructV)
						e = &StructV{T: e.T, F: append([]Val{}, e.F...)}
						e.F[fieldIdx(bt, "Line")] = mkInt(bp, intT)
						vm.F[i] = in.newSlice(st, &Seq{T: bt, Segs: []Seg{{Kind: SegElem, V: e}}}, typeOf(vm.F[i]))
					}
				}}
			}
			eachStep(key, o, next, func(in *Interp, s stepOut, v *VmState) string {
				l, ok := constInt(structField(s.Br, "Line"))
				if !ok || l != want {
					return fmt.Sprintf("after a step from line 0 of a listing (0x%s) the branch is at line %s instead of %d", desc, structField(s.Br, "Line").Key(), want)
				}
				trig := c.triggered(in, s.Out.St, vmf(s, v, "Triggered"))
				if hit := bp == want; hit != (trig == "0") || !hit && trig != "" {
					return fmt.Sprintf("reaching line %d with a breakpoint at line %d (-2: none) triggers %q", want, bp, trig)
				}
				return ""
			})
		}
	}
	// hand-over between branches
	for n := 1; n <= 3; n++ {
		for cur := 0; cur < n; cur++ {
			for live := 0; live < 1<<n; live++ {
				if live&(1<<cur) == 0 {
					continue
				}
				for _, ends := range []bool{false, true} {
					c.handOver(r, eachStep, n, cur, live, ends, next)
				}
			}
		}
	}
	c.runLoop(r)
	c.switchTo(r)
	c.breakpoints(r)
}

type stepFn = func(key string, mk func(in *Interp) vmOpts, eff func(*CallCtx) []Outcome, f func(in *Interp, s stepOut, v *VmState) string)

// nopOps are instructions of the kinds the parser records for lines that are
// not executed.
func (c *Ctx) nopOps() []Val {
	var out []Val
	it, ok := c.P.Type("", "Nop").Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, n := range []string{"LabelExpr", "EmptyExpr", "CommentExpr", "PragmaExpr"} {
		t := c.P.Type("", n)
		if t == nil || !types.Implements(types.NewPointer(t), it) {
			continue
		}
		cell := c.SnapIn.nextCell
		c.SnapIn.nextCell++
		c.Snap.heap[cell] = zeroOf(t)
		out = append(out, &IfaceV{Dyn: types.NewPointer(t), V: &Ptr{Cell: cell, T: types.NewPointer(t)}})
	}
	return out
}

// triggered renders the branch ids with triggered breakpoints.
func (c *Ctx) triggered(in *Interp, st *State, v Val) string {
	m, ok := v.(*MapRef)
	if !ok {
		return "?" + v.Key()
	}
	mc, ok := st.get(m.Cell).(*MapC)
	if !ok || mc.Base != nil {
		return "?" + v.Key()
	}
	var ks []string
	for _, k := range mc.Keys {
		if mc.M[k.Key()] != nil {
			ks = append(ks, k.Key())
		}
	}
	return strings.Join(ks, ",")
}

// withBranches puts n branches into the debugger; branch cur is the current
// one, those not in live have ended.
func (c *Ctx) withBranches(in *Interp, st *State, v *VmState, br, vm *StructV, n, cur, live int, line int64) []Val {
	var ptrs []Val
	bt := br.T
	for i := 0; i < n; i++ {
		if i == cur {
			ptrs = append(ptrs, v.BrPtr)
			br.F[fieldIdx(bt, "Id")] = mkInt(int64(10+i), intT)
			continue
		}
		b := in.expand(st, &Sym{Name: fmt.Sprintf("other%d", i), T: bt}).(*StructV)
		b.F[fieldIdx(bt, "Id")] = mkInt(int64(10+i), intT)
		l := int64(1)
		if live&(1<<i) == 0 {
			l = -1
		}
		b.F[fieldIdx(bt, "Line")] = mkInt(l, intT)
		for j := range b.F {
			if types.Identical(typeOf(b.F[j]), typeOf(v.VmPtr)) {
				b.F[j] = v.VmPtr
			}
		}
		ptrs = append(ptrs, &Ptr{Cell: in.alloc(st, b), T: types.NewPointer(bt)})
	}
	q := &Seq{T: types.NewPointer(bt)}
	for _, p := range ptrs {
		q.Segs = append(q.Segs, Seg{Kind: SegElem, V: p})
	}
	br.F[fieldIdx(bt, "Line")] = mkInt(line, intT)
	i := fieldIdx(vm.T, "Branches")
	vm.F[i] = in.newSlice(st, q, typeOf(vm.F[i]))
	vm.F[fieldIdx(vm.T, "Current")] = mkInt(int64(cur), intT)
	vm.F[fieldIdx(vm.T, "Branch")] = v.BrPtr
	return ptrs
}

func (c *Ctx) handOver(r *Report, eachStep stepFn, n, cur, live int, ends bool, next func(*CallCtx) []Outcome) {
	key := fmt.Sprintf("turn/n%d/c%d/live%03b/ends=%v", n, cur, live, ends)
	var ptrs []Val
	eachStep(key, func(in *Interp) vmOpts {
		return vmOpts{Extra: func(st *State, v *VmState, br, vm *StructV) {
			line := int64(1)
			if ends {
				line = 3 // the last of the listing
			}
			br.F[fieldIdx(br.T, "Budget")] = mkInt(100, intT)
			ptrs = c.withBranches(in, st, v, br, vm, n, cur, live, line)
		}}
	}, next, func(in *Interp, s stepOut, v *VmState) string {
		want := Val(nil)
		if !ends {
			want = ptrs[cur]
		} else {
			for k := 1; k <= n; k++ {
				if i := (cur + k) % n; i != cur && live&(1<<i) != 0 {
					want = ptrs[i]
					break
				}
			}
		}
		got := structField(s.Out.St.get(v.Vm), "Branch")
		if len(s.Execs) != 1 {
			return fmt.Sprintf("the step executes %d instructions", len(s.Execs))
		}
		if want == nil {
			if !isNilConst(got) {
				return "after the last branch has ended, a branch is still current"
			}
		} else if got.Key() != want.Key() {
			return fmt.Sprintf("with %d branches (live: %03b), after a step of branch %d (ended: %v) the current branch is %s instead of %s", n, live, cur, ends, got.Key(), want.Key())
		}
		if ends {
			if l, ok := constInt(structField(s.Br, "Line")); !ok || l != -1 {
				return "a branch that ran past the last line has not ended"
			}
		}
		for i, p := range ptrs {
			if i == cur {
				continue
			}
			o := in.load(s.Out.St, p.(*Ptr)).(*StructV)
			w := int64(1)
			if live&(1<<i) == 0 {
				w = -1
			}
			if l, ok := constInt(structField(o, "Line")); !ok || l != w {
				return "a step of one branch moves another branch"
			}
		}
		return ""
	})
}

// runLoop: Run repeats Step until the end, an error or a breakpoint.
func (c *Ctx) runLoop(r *Report) {
	vt := c.P.Type("", "Vm")
	run := c.P.Method(types.NewPointer(vt), "Run")
	step := c.P.Method(types.NewPointer(vt), "Step")
	if run == nil {
		r.bad("run", "vm.go", "Vm.Run not found")
		return
	}
	pos := r.fnPos(run)
	set := func(ctx *CallCtx, p *Ptr, name string, v func(t types.Type) Val) {
		vm := ctx.In.load(ctx.St, p).(*StructV)
		n := &StructV{T: vm.T, F: append([]Val{}, vm.F...)}
		i := fieldIdx(vm.T, name)
		n.F[i] = v(typeOf(vm.F[i]))
		ctx.In.store(ctx.St, p, n)
	}
	boom := &IfaceV{Dyn: types.Typ[types.String], V: &Sym{Name: "boom", T: types.Typ[types.String]}}
	for _, sc := range []string{"end", "error", "breakpoint", "breakpoint of another branch", "idle"} {
		for before := 0; before <= 3; before++ {
			if sc == "idle" && before > 0 {
				continue
			}
			key := fmt.Sprintf("run/%s/%d", sc, before)
			r.count("step")
			in := c.NewAnalysis(allGlobals)
			st := in.NewState()
			v, err := c.vmState(in, st, vmOpts{Listing: c.listing(4), Line: mkInt(0, intT), Extra: func(st *State, v *VmState, br, vm *StructV) {
				vm.F[fieldIdx(vm.T, "Branch")] = v.BrPtr
				br.F[fieldIdx(br.T, "Id")] = mkInt(5, intT)
				for _, n := range []string{"Error"} {
					i := fieldIdx(vm.T, n)
					vm.F[i] = zeroOf(typeOf(vm.F[i]))
				}
				i := fieldIdx(vm.T, "Triggered")
				vm.F[i] = &MapRef{Cell: in.alloc(st, &MapC{T: typeOf(vm.F[i]), M: map[string]Val{}}), T: typeOf(vm.F[i])}
				if sc == "idle" {
					i := fieldIdx(vm.T, "Branch")
					vm.F[i] = zeroOf(typeOf(vm.F[i]))
				}
			}})
			if err != nil {
				r.bad(key, pos, "%v", err)
				continue
			}
			late := false
			in.HookAny = func(ctx *CallCtx) ([]Outcome, bool) {
				if ctx.Fn != step {
					return nil, false
				}
				n := 0
				for _, e := range ctx.St.Events() {
					if e.Kind == "step" {
						n++
					}
				}
				ctx.St.emit(Event{Kind: "step"})
				p := ctx.Args[0].(*Ptr)
				if n == before {
					switch sc {
					case "end":
						set(ctx, p, "Branch", zeroOf)
					case "error":
						set(ctx, p, "Error", func(types.Type) Val { return boom })
					case "breakpoint", "breakpoint of another branch":
						set(ctx, p, "Triggered", func(t types.Type) Val {
							k := Val(mkInt(77, intT))
							if sc == "breakpoint" {
								k = mkInt(5, intT)
							}
							et := t.Underlying().(*types.Map).Elem()
							hit := ctx.In.newSlice(ctx.St, &Seq{T: intT, Segs: []Seg{{Kind: SegElem, V: mkInt(3, intT)}}}, et)
							m := &MapC{T: t, Keys: []Val{k}, M: map[string]Val{k.Key(): hit}}
							return &MapRef{Cell: ctx.In.alloc(ctx.St, m), T: t}
						})
					}
				}
				if n > before {
					late = true
					return nil, true // already wrong; cut the path
				}
				return []Outcome{{St: ctx.St, Kind: OutReturn}}, true
			}
			outs := in.Call(st, run, []Val{v.VmPtr}, nil, 0)
			r.incompl(in, key, pos)
			want := before + 1
			if sc == "idle" {
				want = 0
			}
			why := "Run does not stop"
			for _, o := range outs {
				if o.Kind == OutLoop {
					continue
				}
				n := 0
				for _, e := range o.St.Events() {
					if e.Kind == "step" {
						n++
					}
				}
				switch {
				case o.Kind != OutReturn:
					why = "Run can panic"
				case n != want:
					why = fmt.Sprintf("Run stops after %d steps instead of %d", n, want)
				default:
					if why == "Run does not stop" {
						why = ""
					}
				}
			}
			if late && why == "" {
				why = "Run can go on"
			}
			r.check(why == "", key, pos, "%s when step %d reaches: %s", why, before+1, sc)
		}
	}
}

// switchTo: Switch selects the branch with the given identifier.
func (c *Ctx) switchTo(r *Report) {
	vt := c.P.Type("", "Vm")
	fn := c.P.Method(types.NewPointer(vt), "Switch")
	if fn == nil {
		r.bad("switch", "vm.go", "Vm.Switch not found")
		return
	}
	pos := r.fnPos(fn)
	for id := int64(9); id <= 13; id++ {
		key := fmt.Sprintf("switch/%d", id)
		r.count("step")
		in := c.NewAnalysis(allGlobals)
		st := in.NewState()
		var ptrs []Val
		v, err := c.vmState(in, st, vmOpts{Listing: c.listing(4), Extra: func(st *State, v *VmState, br, vm *StructV) {
			ptrs = c.withBranches(in, st, v, br, vm, 3, 1, 7, 1)
		}})
		if err != nil {
			r.bad(key, pos, "%v", err)
			continue
		}
		outs := in.Call(st, fn, []Val{v.VmPtr, mkInt(id, intT)}, nil, 0)
		r.incompl(in, key, pos)
		why := "no outcome"
		for _, o := range outs {
			if o.Kind == OutLoop {
				continue
			}
			if o.Kind != OutReturn {
				why = "can panic"
				break
			}
			want := int64(1)
			if id >= 10 && id <= 12 {
				want = id - 10
			}
			vm := o.St.get(v.Vm)
			cur, ok := constInt(structField(vm, "Current"))
			if b := structField(vm, "Branch"); b.Key() != ptrs[want].Key() || !ok || cur != want {
				why = fmt.Sprintf("of the branches 10, 11 (current) and 12, selects %s at position %s", b.Key(), structField(vm, "Current").Key())
				break
			}
			why = ""
		}
		r.check(why == "", key, pos, "Switch(%d): %s", id, why)
	}
}

// breakpoints: SetBreakpoints keeps exactly the executable lines.
func (c *Ctx) breakpoints(r *Report) {
	vt := c.P.Type("", "Vm")
	fn := c.P.Method(types.NewPointer(vt), "SetBreakpoints")
	if fn == nil {
		r.bad("breakpoints", "vm.go", "Vm.SetBreakpoints not found")
		return
	}
	pos := r.fnPos(fn)
	nops := c.nopOps()
	if len(nops) < 4 {
		return
	}
	list := []Val{c.nonNop(), nops[0], c.nonNop(), nops[1], nops[2], nops[3]}
	for _, lines := range [][]int64{{}, {-1}, {0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}, {0, 1, 2}, {2, -5, 0}, {100, 2, -1, 1}} {
		key := fmt.Sprintf("breakpoints/%v", lines)
		r.count("step")
		in := c.NewAnalysis(allGlobals)
		st := in.NewState()
		v, err := c.vmState(in, st, vmOpts{Listing: list, Extra: func(st *State, v *VmState, br, vm *StructV) {
			// breakpoints set earlier
			if i := fieldIdx(vm.T, "Breakpoints"); i >= 0 {
				vm.F[i] = &Sym{Name: "earlier", T: vm.T.Underlying().(*types.Struct).Field(i).Type()}
			}
		}})
		if err != nil {
			r.bad(key, pos, "%v", err)
			continue
		}
		q := &Seq{T: intT}
		var want []string
		for _, l := range lines {
			q.Segs = append(q.Segs, Seg{Kind: SegElem, V: mkInt(l, intT)})
			if l == 0 || l == 2 {
				want = append(want, fmt.Sprint(l))
			}
		}
		outs := in.Call(st, fn, []Val{v.VmPtr, in.newSlice(st, q, types.NewSlice(intT))}, nil, 0)
		r.incompl(in, key, pos)
		why := "no outcome"
		for _, o := range outs {
			if o.Kind == OutLoop {
				continue
			}
			if o.Kind != OutReturn {
				why = "can panic: " + o.Pan.Key()
				break
			}
			var got []string
			bq, ok := in.seqOf(o.St, structField(o.St.get(v.Vm), "Breakpoints"))
			if !ok {
				why = "the breakpoints could not be determined"
				break
			}
			for _, g := range bq.Segs {
				if g.Kind == SegElem && g.V != nil {
					got = append(got, structField(g.V, "Line").Key())
				} else {
					got = append(got, "earlier ones")
				}
			}
			ver := c.triggered(in, o.St, o.Vals[0])
			w := append([]string{}, want...)
			if !sameStrs(got, want) {
				why = fmt.Sprintf("sets breakpoints at lines %v instead of %v", got, want)
				break
			}
			if !sameStrs(strings.Split(ver, ","), w) && !(ver == "" && len(w) == 0) {
				why = fmt.Sprintf("reports lines %s as verified instead of %v", ver, w)
				break
			}
			why = ""
		}
		r.check(why == "", key, pos, "breakpoints at %v in a listing with executable lines 0 and 2: %s", lines, why)
	}
}
