package main

import (
	"fmt"
	"strconv"
	"strings"
)

// importVal copies a value (with the heap cells it reaches) into another
// state.
func importVal(in *Interp, dst, src *State, v Val, seen map[int]int) Val {
	switch v := v.(type) {
	case *Ptr:
		if src.heap[v.Cell] == nil {
			return v
		}
		n, ok := seen[v.Cell]
		if !ok {
			n = in.alloc(dst, nil)
			seen[v.Cell] = n
			dst.heap[n] = importVal(in, dst, src, src.heap[v.Cell], seen)
		}
		q := *v
		q.Cell = n
		return &q
	case *IfaceV:
		return &IfaceV{Dyn: v.Dyn, V: importVal(in, dst, src, v.V, seen)}
	case *StructV:
		q := &StructV{T: v.T}
		for _, f := range v.F {
			q.F = append(q.F, importVal(in, dst, src, f, seen))
		}
		return q
	case *SliceV:
		n, ok := seen[v.Cell]
		if !ok {
			n = in.alloc(dst, nil)
			seen[v.Cell] = n
			dst.heap[n] = importVal(in, dst, src, src.get(v.Cell), seen)
		}
		q := *v
		q.Cell = n
		return &q
	case *Seq:
		q := &Seq{T: v.T}
		for _, g := range v.Segs {
			if g.V != nil {
				g.V = importVal(in, dst, src, g.V, seen)
			}
			q.Segs = append(q.Segs, g)
		}
		return q
	}
	return v
}

// asm parses one source line abstractly and returns the instruction it
// records, in the given state.
func (c *Ctx) asm(in *Interp, st *State, line string) (Val, error) {
	w := strings.Fields(line)
	reg, err := c.Registry()
	if err != nil {
		return nil, err
	}
	for _, o := range reg {
		if o.Name != w[0] {
			continue
		}
		runs, in2, err := c.runParse(o, len(w)-1, allGlobals, func(in *Interp, st *State, cc int) {
			for k := 1; k < len(w); k++ {
				c.tokenText(in, st, cc, k, w[k])
			}
		})
		if err != nil {
			return nil, err
		}
		if len(in2.Incompl) > 0 {
			return nil, fmt.Errorf("%s: %s", line, in2.Incompl[0])
		}
		for _, r := range runs {
			if r.Out.Kind == OutReturn && len(r.Ops) == 1 {
				return importVal(in, st, r.Out.St, r.Ops[0], map[int]int{}), nil
			}
		}
		return nil, fmt.Errorf("%q is not accepted", line)
	}
	return nil, fmt.Errorf("%s is not a registered opcode", w[0])
}

// flow is an analysis of a sequence of instructions on one branch.
type flow struct {
	c   *Ctx
	r   *Report
	in  *Interp
	st  *State
	v   *VmState
	key string
	pos string
	bad bool
}

func (f *flow) br(name string) Val { return structField(f.st.get(f.v.Br), name) }
func (f *flow) line() (int64, bool) {
	return constInt(f.br("Line"))
}
func (f *flow) fail(format string, a ...any) {
	if !f.bad {
		f.r.bad(f.key, f.pos, format, a...)
	}
	f.bad = true
}

// exec analyses one instruction; it must have exactly one outcome, of the
// given kind.
func (f *flow) exec(line string, kind OutKind) bool {
	if f.bad {
		return false
	}
	op, err := f.c.asm(f.in, f.st, line)
	if err != nil {
		f.fail("%v", err)
		return false
	}
	if fn := f.c.method(op, "Execute"); fn != nil {
		f.pos = f.r.fnPos(fn)
	}
	outs, _ := f.c.execute(f.in, f.st, op, f.v)
	f.r.incompl(f.in, f.key+"/"+line, f.pos)
	if len(outs) == 0 {
		f.fail("%s: no outcome", line)
		return false
	}
	for _, o := range outs {
		if o.Kind != kind {
			if kind == OutPanic {
				f.fail("%s is not reported as an error", line)
			} else {
				f.fail("%s fails: %s", line, o.Pan.Key())
			}
			return false
		}
	}
	if len(outs) > 1 {
		f.fail("%s has more than one possible effect on a fixed stack", line)
		return false
	}
	f.st = outs[0].St
	return true
}

func (f *flow) stack() []string {
	q, ok := f.c.stackOf(f.in, f.st, f.v)
	if !ok {
		f.fail("the stack could not be determined")
		return nil
	}
	var out []string
	for _, g := range q.Segs {
		if g.Kind != SegElem {
			f.fail("the stack could not be determined: %s", q.Key())
			return nil
		}
		out = append(out, g.V.Key())
	}
	return out
}

func sameStrs(a, b []string) bool {
	return strings.Join(a, "|") == strings.Join(b, "|") && len(a) == len(b)
}

// seqKey renders the content of a slice.
func seqKey(in *Interp, st *State, v Val) string {
	q, ok := in.seqOf(st, v)
	if !ok {
		return "?" + v.Key()
	}
	return q.Key()
}

// branches returns the branches of the debugger: the arbitrary ones it had
// before, then the added ones.
func (c *Ctx) branches(in *Interp, st *State, v *VmState) (base string, added []Val) {
	vm := st.get(v.Vm)
	q, ok := in.seqOf(st, structField(vm, "Branches"))
	if !ok {
		return "?", nil
	}
	for i, g := range q.Segs {
		if g.Kind == SegElem {
			for _, h := range q.Segs[i:] {
				added = append(added, h.V)
			}
			break
		}
		base += (&Seq{T: q.T, Segs: []Seg{g}}).Key()
	}
	return base, added
}

const flowLine = 9

func flowTargets(vc vmCase) (targets []string, kind string) {
	for i := 1; i <= vc.fc.N; i++ {
		if strings.HasPrefix(vc.toks[i], "L") && vc.fc.Form.Imms[i-1] == "label" {
			targets = append(targets, vc.toks[i])
		}
	}
	switch vc.fc.Form.Op {
	case "b":
		kind = "jump"
	case "callsub":
		kind = "call"
	case "bnz", "bz", "switch", "match":
		kind = "fork"
	case "return", "err":
		kind = "exit"
	case "retsub", "proto", "frame_dig", "frame_bury":
		kind = "frame"
	default:
		kind = "next"
	}
	return
}

func checkP10(c *Ctx, r *Report) {
	r.Rule = "For every form of every opcode (labels of the branching ones fixed, present or missing; other immediates, the stack below and the rest of the debugger state arbitrary), abstract interpretation of the instruction's debugger effect: the successors are exactly the AVM's (next line; the label's line; one new branch per label plus the next line; end of program), frames and name are kept, and no other branch is created. Subroutine frames: callsub / proto A R / locals / frame_dig / frame_bury / retsub sequences are analysed on stacks of known height with arbitrary values for small A, R, numbers of locals and frame indices; stack, frames, name and return line must be the AVM's, and accesses outside the frame must be errors."
	r.floor("successors", 400)
	r.floor("frame sequence", 200)
	t, err := c.vmTypes()
	if err != nil {
		r.bad("types", "vm.go", "%v", err)
		return
	}
	for _, vc := range c.vmCases(r) {
		targets, kind := flowTargets(vc)
		if kind == "frame" {
			continue
		}
		eff, ok := vc.effect()
		if !ok && kind != "call" {
			continue
		}
		runs, in := c.parseCase(r, vc)
		for _, run := range runs {
			pos := r.fnPos(vc.fc.Reg.Parse)
			if fn := c.method(run.Ops[0], "Execute"); fn != nil {
				pos = r.fnPos(fn)
			}
			ts := make([]int64, len(eff.pops))
			for i := range ts {
				ts[i] = t.of(eff.pops[i])
			}
			modes := []map[string]int64{caseLabels}
			if len(targets) > 0 {
				modes = append(modes, map[string]int64{}) // labels not defined
			}
			for mi, labels := range modes {
				k := vc.key
				if mi > 0 {
					k += "/undefined"
				}
				r.count("successors")
				st := run.Out.St.clone()
				var line Val
				if kind == "call" || kind == "fork" || kind == "jump" {
					line = mkInt(flowLine, intT)
				}
				v, err := c.vmState(in, st, vmOpts{Types: ts, Labels: labels, Listing: c.listing(12), Line: line})
				if err != nil {
					r.bad(k, pos, "%v", err)
					continue
				}
				before := st.get(v.Br).(*StructV)
				bq, _ := c.branches(in, st, v)
				bline, bname := structField(before, "Line"), structField(before, "Name")
				bframes := seqKey(in, st, structField(before, "Frames"))
				outs, _ := c.execute(in, st, run.Ops[0], v)
				r.incompl(in, k, pos)
				why := ""
				n := 0
				for _, o := range outs {
					if o.Kind != OutReturn {
						why = "can fail: " + o.Pan.Key()
						continue
					}
					n++
					after := o.St.get(v.Br).(*StructV)
					base, added := c.branches(in, o.St, v)
					al := structField(after, "Line")
					goal := func(l string) int64 {
						if x, ok := labels[l]; ok {
							return x
						}
						return -1
					}
					is := func(x Val, n int64) bool { y, ok := constInt(x); return ok && y == n }
					frames := seqKey(in, o.St, structField(after, "Frames"))
					want := 0
					switch kind {
					case "next", "fork":
						if d, ok := linDiff(al, bline); !ok || d != 1 {
							why = fmt.Sprintf("goes from line %s to line %s instead of the next one", bline.Key(), al.Key())
						}
						want = len(targets)
					case "jump", "call":
						if !is(al, goal(targets[0])) {
							why = fmt.Sprintf("continues at line %s instead of its label's, %d", al.Key(), goal(targets[0]))
						}
					case "exit":
						if !is(al, -1) {
							why = fmt.Sprintf("does not end the branch: continues at line %s", al.Key())
						}
					}
					if kind != "call" && frames != bframes {
						why = "changes the call frames: " + frames
					}
					if kind == "call" && !strings.HasPrefix(frames, strings.TrimSuffix(bframes, ">")) {
						why = "changes the call frames it returns to: " + frames
					}
					if nm := structField(after, "Name"); kind != "exit" && nm.Key() != bname.Key() {
						why = "changes the branch's name to " + nm.Key()
					}
					if base != bq {
						why = "changes the other branches"
					}
					if len(added) != want {
						why = fmt.Sprintf("creates %d branches instead of %d", len(added), want)
						continue
					}
					for i, a := range added {
						p, ok := a.(*Ptr)
						if !ok {
							why = "creates a branch that could not be determined"
							continue
						}
						nb, _ := in.load(o.St, p).(*StructV)
						if nl := structField(nb, "Line"); !is(nl, goal(targets[i])) {
							why = fmt.Sprintf("the branch for label %s starts at line %s instead of %d", targets[i], nl.Key(), goal(targets[i]))
						}
					}
				}
				if why == "" && n == 0 {
					why = "no outcome"
				}
				r.check(why == "", k, pos, "%s: %s", strings.TrimSpace(vc.fc.Form.Op+" "+strings.Join(targets, " ")), why)
			}
		}
	}
	c.frames(r, t)
}

// frames analyses subroutine calls.
func (c *Ctx) frames(r *Report, t vmTypes) {
	start := func(key string, height int) *flow {
		in := c.NewAnalysis(allGlobals)
		st := in.NewState()
		ts := make([]int64, height)
		for i := range ts {
			ts[i] = t.Any
		}
		f := &flow{c: c, r: r, in: in, st: st, key: key, pos: "vm.go"}
		v, err := c.vmState(in, st, vmOpts{Types: ts, Closed: true, Labels: caseLabels, Listing: c.listing(12), Line: mkInt(flowLine, intT)})
		if err != nil {
			f.fail("%v", err)
			return f
		}
		f.v = v
		r.count("frame sequence")
		return f
	}
	call := func(height, args, rets, locals int, idxs []int) {
		if args < 0 && rets > 0 {
			return
		}
		proto := "without proto"
		if args >= 0 {
			proto = fmt.Sprintf("with proto %d %d", args, rets)
		}
		key := fmt.Sprintf("call/h%d/a%d/r%d/l%d", height, args, rets, locals)
		f := start(key, height)
		if f.bad {
			return
		}
		base := f.stack()
		name, frames := f.br("Name").Key(), seqKey(f.in, f.st, f.br("Frames"))
		f.exec("callsub L1", OutReturn)
		if f.bad {
			return
		}
		if args >= 0 {
			if args > height {
				if f.exec("proto "+strconv.Itoa(args)+" "+strconv.Itoa(rets), OutPanic) {
					r.ok(key)
				}
				return
			}
			f.exec("proto "+strconv.Itoa(args)+" "+strconv.Itoa(rets), OutReturn)
		}
		for i := 0; i < locals; i++ {
			f.exec("int "+strconv.Itoa(100+i), OutReturn)
		}
		if f.bad {
			return
		}
		full := f.stack()
		if len(full) != height+locals || !sameStrs(full[:height], base) {
			f.fail("the stack inside a subroutine %s is %v", proto, full)
			return
		}
		// frame accesses
		for _, i := range idxs {
			idx := height + i
			in := idx >= 0 && idx < len(full) && !(args >= 0 && -i > args)
			g := *f
			g.st = f.st.clone()
			g.key = key + "/dig" + strconv.Itoa(i)
			if in {
				if g.exec("frame_dig "+strconv.Itoa(i), OutReturn) {
					if s := g.stack(); !sameStrs(s, append(append([]string{}, full...), full[idx])) {
						g.fail("frame_dig %d in a subroutine %s called at height %d leaves %v instead of pushing value %d of %v", i, proto, height, s, idx, full)
					}
				}
			} else {
				g.exec("frame_dig "+strconv.Itoa(i), OutPanic)
			}
			if !g.bad {
				r.ok(g.key)
			}
			g = *f
			g.st = f.st.clone()
			g.key = key + "/bury" + strconv.Itoa(i)
			if in && idx < len(full)-1 {
				if g.exec("frame_bury "+strconv.Itoa(i), OutReturn) {
					w := append([]string{}, full[:len(full)-1]...)
					w[idx] = full[len(full)-1]
					if s := g.stack(); !sameStrs(s, w) {
						g.fail("frame_bury %d in a subroutine %s called at height %d leaves %v instead of %v", i, proto, height, s, w)
					}
				}
			} else {
				g.exec("frame_bury "+strconv.Itoa(i), OutPanic)
			}
			if !g.bad {
				r.ok(g.key)
			}
		}
		// return
		if args >= 0 && locals < rets {
			if f.exec("retsub", OutPanic) {
				r.ok(key)
			}
			return
		}
		want := full
		if args >= 0 {
			want = append(append([]string{}, base[:height-args]...), full[len(full)-rets:]...)
		}
		if !f.exec("retsub", OutReturn) {
			return
		}
		if s := f.stack(); !sameStrs(s, want) {
			f.fail("retsub from a subroutine %s called at height %d with %d values above it leaves %v instead of %v", proto, height, locals, s, want)
		}
		if l, ok := f.line(); !ok || l != flowLine+1 {
			f.fail("retsub returns at line %s instead of the line after callsub", f.br("Line").Key())
		}
		if n := f.br("Name").Key(); n != name {
			f.fail("retsub leaves the branch name %s", n)
		}
		if s := seqKey(f.in, f.st, f.br("Frames")); s != frames {
			f.fail("retsub leaves the call frames %s instead of %s", s, frames)
		}
		if !f.bad {
			r.ok(key)
		}
	}
	near := []int{-4, -3, -2, -1, 0, 1, 2, 3}
	for height := 0; height <= 4; height++ {
		for args := -1; args <= 3; args++ { // -1: no proto
			for rets := 0; rets <= 2; rets++ {
				for locals := 0; locals <= 3; locals++ {
					call(height, args, rets, locals, near)
				}
			}
		}
	}
	// as many arguments, results and locals as the encoding has room for
	far := []int{-128, -127, -1, 0, 126, 127}
	for _, n := range []int{127, 128, 255} {
		call(n, n, 0, 3, far)
		call(n+2, n, 1, 130, far)
		call(n+1, n, n, n, far)
		call(n+1, -1, 0, 130, far)
		call(n-1, n, 0, 0, far)
		call(3, 3, n, n-1, far)
	}
	// nested call: the inner call's frame does not disturb the outer one
	f := start("call/nested", 2)
	f.exec("callsub L1", OutReturn)
	f.exec("proto 2 1", OutReturn)
	f.exec("int 1", OutReturn)
	outer := f.stack()
	outerFrames := seqKey(f.in, f.st, f.br("Frames"))
	f.exec("callsub L2", OutReturn)
	f.exec("proto 1 1", OutReturn)
	f.exec("frame_dig -1", OutReturn)
	f.exec("retsub", OutReturn)
	if !f.bad {
		if s := f.stack(); !sameStrs(s, outer) {
			f.fail("a nested call of an identity subroutine leaves %v instead of %v", s, outer)
		}
		if s := seqKey(f.in, f.st, f.br("Frames")); s != outerFrames {
			f.fail("a nested call changes the outer frame")
		}
		if l, ok := f.line(); !ok || l != caseLabels["L1"]+3 {
			f.fail("a nested call returns to line %s", f.br("Line").Key())
		}
	}
	if !f.bad {
		r.ok("call/nested")
	}
	// frame instructions at top level
	for _, line := range []string{"retsub", "proto 1 1", "frame_dig 0", "frame_dig -1", "frame_bury 0", "frame_bury -1"} {
		f := start("top/"+line, 3)
		if f.bad {
			continue
		}
		br := f.st.get(f.v.Br).(*StructV)
		nb := &StructV{T: br.T, F: append([]Val{}, br.F...)}
		i := fieldIdx(br.T, "Frames")
		if i < 0 {
			f.fail("no frames in the branch state")
			continue
		}
		nb.F[i] = zeroOf(typeOf(br.F[i]))
		f.st.heap[f.v.Br] = nb
		if f.exec(line, OutPanic) {
			r.ok("top/" + line)
		}
	}
}
