package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) val(st *State, fr *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		return &Const{V: v.Value, T: v.Type()}
	case *ssa.Global:
		return &Ptr{Cell: in.globalCell(st, v), T: v.Type()}
	case *ssa.Function:
		return &FuncV{Fn: v}
	case *ssa.Builtin:
		return &BuiltinV{B: v}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	r := in.fresh("undef:"+v.Name(), v.Type())
	return r
}

func (in *Interp) runBlock(w work) (nexts []work, outs []Outcome) {
	i := w.i
	if i < 0 {
		i = -i - 1
	}
	b, fr, st := w.b, w.fr, w.st
	for ; i < len(b.Instrs); i++ {
		in.steps++
		ins := b.Instrs[i]
		switch ins := ins.(type) {
		case *ssa.DebugRef, *ssa.Phi:
		case *ssa.Jump:
			return []work{{b: b.Succs[0], prev: b, fr: fr, st: st}}, outs
		case *ssa.If:
			return in.branch(w, ins, fr, st), outs
		case *ssa.Return:
			var vs []Val
			for _, r := range ins.Results {
				vs = append(vs, in.val(st, fr, r))
			}
			return nil, append(outs, Outcome{St: st, Kind: OutReturn, Vals: vs})
		case *ssa.Panic:
			p := in.val(st, fr, ins.X)
			return nil, append(outs, in.unwind(fr, st, p)...)
		case *ssa.RunDefers:
			res := in.runDefers(fr, st, nil)
			for k, o := range res {
				switch o.Kind {
				case OutReturn:
					f2 := fr
					if k < len(res)-1 {
						f2 = fr.clone()
					}
					f2.defers = nil
					nexts = append(nexts, work{b: b, prev: w.prev, i: -(i + 2), fr: f2, st: o.St})
				default:
					outs = append(outs, o)
				}
			}
			return nexts, outs
		case *ssa.Defer:
			d := defRec{common: &ins.Call, instr: ins}
			d.fn, d.args = in.callee(st, fr, &ins.Call)
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			_, args := in.callee(st, fr, &ins.Call)
			st.emit(Event{Kind: "go", Args: args, Pos: ins.Pos(), Fn: fr.fn})
		case *ssa.Call:
			res := in.doCall(st, fr, ins, &ins.Call)
			if len(res) == 1 && res[0].Kind == OutReturn {
				st = res[0].St
				fr.env[ins] = tupleVal(res[0].Vals, ins.Type())
				continue
			}
			var conts []Outcome
			for _, o := range res {
				switch o.Kind {
				case OutReturn:
					conts = append(conts, o)
				case OutPanic:
					f2 := fr.clone()
					outs = append(outs, in.unwind(f2, o.St, o.Pan)...)
				case OutLoop:
					outs = append(outs, o)
				}
			}
			for k, o := range conts {
				f2 := fr
				if k < len(conts)-1 {
					f2 = fr.clone()
				}
				f2.env[ins] = tupleVal(o.Vals, ins.Type())
				nexts = append(nexts, work{b: b, prev: w.prev, i: -(i + 2), fr: f2, st: o.St})
			}
			return nexts, outs
		case *ssa.TypeAssert:
			forks := in.typeAssert(st, fr, ins)
			if len(forks) == 1 && forks[0].Kind == OutReturn {
				st = forks[0].St
				fr.env[ins] = forks[0].Vals[0]
				continue
			}
			var conts []Outcome
			for _, o := range forks {
				if o.Kind == OutPanic {
					outs = append(outs, in.unwind(fr.clone(), o.St, o.Pan)...)
				} else {
					conts = append(conts, o)
				}
			}
			for k, o := range conts {
				f2 := fr
				if k < len(conts)-1 {
					f2 = fr.clone()
				}
				f2.env[ins] = o.Vals[0]
				nexts = append(nexts, work{b: b, prev: w.prev, i: -(i + 2), fr: f2, st: o.St})
			}
			return nexts, outs
		case *ssa.Lookup, *ssa.Next:
			forks := in.lookupNext(st, fr, ins.(ssa.Value))
			for k, o := range forks {
				f2 := fr
				if k < len(forks)-1 {
					f2 = fr.clone()
				}
				f2.env[ins.(ssa.Value)] = o.Vals[0]
				if len(forks) == 1 {
					st = o.St
				} else {
					nexts = append(nexts, work{b: b, prev: w.prev, i: -(i + 2), fr: f2, st: o.St})
				}
			}
			if len(forks) > 1 {
				return nexts, outs
			}
		default:
			if msg := in.mustPanic(st, fr, ins); msg != "" {
				return nil, append(outs, in.unwind(fr, st, &IfaceV{Dyn: types.Typ[types.String], V: mkStr("runtime error: " + msg)})...)
			}
			if in.ForkPanics {
				for _, sc := range in.safety(st, fr, ins) {
					switch st.facts.decide(sc.c) {
					case 1:
						continue
					}
					s2 := st.clone()
					nc := sc.c
					nc.neg = true
					s2.facts.assume(nc)
					outs = append(outs, in.unwind(fr.clone(), s2, &IfaceV{Dyn: types.Typ[types.String], V: mkStr("runtime error: " + sc.msg)})...)
					st.facts.assume(sc.c)
				}
			}
			in.simple(st, fr, ins)
		}
	}
	return nexts, outs
}

type safeCond struct {
	c   cond
	msg string
}

// safety lists the conditions under which an instruction does not panic.
func (in *Interp) safety(st *State, fr *frame, ins ssa.Instruction) []safeCond {
	var out []safeCond
	nn := func(v Val) {
		if v == nil {
			return
		}
		switch v.(type) {
		case *Ptr, *Const, *MapRef, *FuncV:
			return // known: mustPanic decides
		}
		out = append(out, safeCond{cond{op: "eq", a: v, b: &Const{T: typeOf(v)}, neg: true}, "invalid memory address or nil pointer dereference"})
	}
	rng := func(idx, n Val, incl bool, msg string) {
		if idx == nil || n == nil {
			return
		}
		out = append(out, safeCond{cond{op: "le", a: mkInt(0, typeOf(idx)), b: idx}, msg})
		op := "lt"
		if incl {
			op = "le"
		}
		out = append(out, safeCond{cond{op: op, a: idx, b: n}, msg})
	}
	switch ins := ins.(type) {
	case *ssa.IndexAddr:
		x := in.val(st, fr, ins.X)
		if _, ok := und(ins.X.Type()).(*types.Pointer); ok {
			nn(x)
		}
		rng(in.val(st, fr, ins.Index), in.lenOf(st, x), false, "index out of range")
	case *ssa.Index:
		rng(in.val(st, fr, ins.Index), in.lenOf(st, in.val(st, fr, ins.X)), false, "index out of range")
	case *ssa.Slice:
		x := in.val(st, fr, ins.X)
		n := in.lenOf(st, x)
		hi := n
		if ins.High != nil {
			hi = in.val(st, fr, ins.High)
			rng(hi, n, true, "slice bounds out of range")
		}
		if ins.Max != nil {
			// within the length is within the capacity, whatever that is
			m := in.val(st, fr, ins.Max)
			rng(m, n, true, "slice bounds out of range")
			rng(hi, m, true, "slice bounds out of range")
		}
		if ins.Low != nil {
			rng(in.val(st, fr, ins.Low), hi, true, "slice bounds out of range")
		}
	case *ssa.MakeSlice:
		l := in.val(st, fr, ins.Len)
		out = append(out, safeCond{cond{op: "le", a: mkInt(0, typeOf(l)), b: l}, "makeslice: len out of range"})
	case *ssa.FieldAddr:
		nn(in.val(st, fr, ins.X))
	case *ssa.UnOp:
		if ins.Op == token.MUL {
			nn(in.val(st, fr, ins.X))
		}
	case *ssa.Store:
		nn(in.val(st, fr, ins.Addr))
	case *ssa.BinOp:
		if ins.Op == token.QUO || ins.Op == token.REM {
			if isInt(ins.Y.Type()) {
				y := in.val(st, fr, ins.Y)
				out = append(out, safeCond{cond{op: "eq", a: y, b: mkInt(0, typeOf(y)), neg: true}, "integer divide by zero"})
			}
		}
	}
	return out
}

// mustPanic recognises instructions that certainly panic in this state.
func (in *Interp) mustPanic(st *State, fr *frame, ins ssa.Instruction) string {
	oob := func(idx, n Val, incl bool) bool {
		if idx == nil || n == nil {
			return false
		}
		if st.facts.decide(cond{op: "lt", a: idx, b: mkInt(0, typeOf(idx))}) == 1 {
			return true
		}
		op := "le"
		if incl {
			op = "lt"
		}
		return st.facts.decide(cond{op: op, a: n, b: idx}) == 1
	}
	isNil := func(v Val) bool { return isNilConst(v) }
	switch ins := ins.(type) {
	case *ssa.IndexAddr:
		x := in.val(st, fr, ins.X)
		if isNil(x) {
			return "index out of range"
		}
		if oob(in.val(st, fr, ins.Index), in.lenOf(st, x), false) {
			return "index out of range"
		}
	case *ssa.Index:
		if oob(in.val(st, fr, ins.Index), in.lenOf(st, in.val(st, fr, ins.X)), false) {
			return "index out of range"
		}
	case *ssa.Slice:
		x := in.val(st, fr, ins.X)
		n := in.lenOf(st, x)
		hi := n
		if ins.High != nil {
			hi = in.val(st, fr, ins.High)
			if !isStringT(ins.X.Type()) {
				// a slice may be extended up to its capacity
				if st.facts.decide(cond{op: "lt", a: hi, b: mkInt(0, typeOf(hi))}) == 1 {
					return "slice bounds out of range"
				}
			} else if oob(hi, n, true) {
				return "slice bounds out of range"
			}
		}
		if ins.Low != nil && oob(in.val(st, fr, ins.Low), hi, true) {
			return "slice bounds out of range"
		}
	case *ssa.FieldAddr:
		if isNil(in.val(st, fr, ins.X)) {
			return "invalid memory address or nil pointer dereference"
		}
	case *ssa.UnOp:
		if ins.Op == token.MUL && isNil(in.val(st, fr, ins.X)) {
			return "invalid memory address or nil pointer dereference"
		}
	case *ssa.Store:
		if isNil(in.val(st, fr, ins.Addr)) {
			return "invalid memory address or nil pointer dereference"
		}
	case *ssa.MapUpdate:
		if isNil(in.val(st, fr, ins.Map)) {
			return "assignment to entry in nil map"
		}
	}
	return ""
}

func tupleVal(vs []Val, t types.Type) Val {
	if tu, ok := t.(*types.Tuple); ok {
		if tu.Len() == 0 {
			return &Tuple{}
		}
		return &Tuple{V: vs}
	}
	if len(vs) == 0 {
		return &Tuple{}
	}
	return vs[0]
}

func toCond(v Val) cond {
	if t, ok := v.(*Term); ok {
		switch t.Op {
		case "cmp":
			return cond{op: t.Extra, a: t.Args[0], b: t.Args[1]}
		case "not":
			c := toCond(t.Args[0])
			c.neg = !c.neg
			return c
		}
	}
	return cond{op: "true", a: v}
}

func mkCmp(op string, a, b Val) Val {
	return &Term{Op: "cmp", Extra: op, Args: []Val{a, b}, T: types.Typ[types.Bool]}
}
func mkNot(a Val) Val {
	if b, ok := constBool(a); ok {
		return mkBool(!b)
	}
	if t, ok := a.(*Term); ok && t.Op == "not" {
		return t.Args[0]
	}
	return &Term{Op: "not", Args: []Val{a}, T: types.Typ[types.Bool]}
}

func (in *Interp) branch(w work, ins *ssa.If, fr *frame, st *State) []work {
	c := toCond(in.val(st, fr, ins.Cond))
	b := w.b
	d := st.facts.decide(c)
	if d >= 0 {
		t := b.Succs[0]
		if d == 0 {
			t = b.Succs[1]
		}
		if ls := fr.loops[b]; ls != nil {
			bo, isb := ins.Cond.(*ssa.BinOp)
			if isb {
				_, ca := constInt(in.val(st, fr, bo.X))
				_, cb := constInt(in.val(st, fr, bo.Y))
				isb = ca && cb
			}
			ls.counted = isb
		}
		return []work{{b: t, prev: b, fr: fr, st: st}}
	}
	// an undecided exit test makes the enclosing loop symbolic
	li := in.loopsOf(fr.fn)
	for h, ls := range fr.loops {
		body := li.header[h]
		if in.Exact && ls.visits <= 3000 {
			continue
		}
		if body[b] && (!body[b.Succs[0]] || !body[b.Succs[1]]) && (!in.Unroll && !ls.counted || b == h || ls.visits > 40) {
			ls.sym = true
		} else if body[b] {
			ls.forks++
			if ls.forks > 12 && !in.Unroll || ls.forks > 60 {
				ls.sym = true
			}
		}
	}
	s2 := st.clone()
	f2 := fr.clone()
	st.facts.assume(c)
	nc := c
	nc.neg = !nc.neg
	s2.facts.assume(nc)
	return []work{{b: b.Succs[0], prev: b, fr: fr, st: st}, {b: b.Succs[1], prev: b, fr: f2, st: s2}}
}

// unwind runs deferred calls with panic p; recovered panics return.
func (in *Interp) unwind(fr *frame, st *State, p Val) []Outcome {
	if len(fr.defers) == 0 {
		return []Outcome{{St: st, Kind: OutPanic, Pan: p}}
	}
	var outs []Outcome
	for _, o := range in.runDefers(fr, st, p) {
		switch o.Kind {
		case OutReturn: // recovered
			f2 := fr.clone()
			f2.defers = nil
			if fr.fn.Recover != nil {
				outs = append(outs, in.run(work{b: fr.fn.Recover, fr: f2, st: o.St})...)
			} else {
				var vs []Val
				for i := 0; i < fr.fn.Signature.Results().Len(); i++ {
					vs = append(vs, zeroOf(fr.fn.Signature.Results().At(i).Type()))
				}
				outs = append(outs, Outcome{St: o.St, Kind: OutReturn, Vals: vs})
			}
		default:
			outs = append(outs, o)
		}
	}
	return outs
}

func (in *Interp) runDefers(fr *frame, st *State, p Val) []Outcome {
	type dst struct {
		st  *State
		pan Val
	}
	cur := []dst{{st, p}}
	var done []Outcome
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		var nxt []dst
		for _, c := range cur {
			c.st.panics = append(c.st.panics, c.pan)
			c.st.recov = append(c.st.recov, false)
			outs := in.dispatch(c.st, fr, d.instr, d.common, d.fn, d.args)
			for _, o := range outs {
				n := len(o.St.panics) - 1
				rec := o.St.recov[n]
				o.St.panics = o.St.panics[:n]
				o.St.recov = o.St.recov[:n]
				switch o.Kind {
				case OutReturn:
					np := c.pan
					if rec {
						np = nil
					}
					nxt = append(nxt, dst{o.St, np})
				case OutPanic:
					nxt = append(nxt, dst{o.St, o.Pan})
				case OutLoop:
					done = append(done, o)
				}
			}
		}
		cur = nxt
	}
	for _, c := range cur {
		if c.pan != nil {
			done = append(done, Outcome{St: c.st, Kind: OutPanic, Pan: c.pan})
		} else {
			done = append(done, Outcome{St: c.st, Kind: OutReturn})
		}
	}
	return done
}

func (in *Interp) simple(st *State, fr *frame, ins ssa.Instruction) {
	switch ins := ins.(type) {
	case *ssa.Alloc:
		et := ins.Type().Underlying().(*types.Pointer).Elem()
		c := in.alloc(st, zeroOf(et))
		in.ptrNames[c] = ins.Comment
		fr.env[ins] = &Ptr{Cell: c, T: ins.Type()}
	case *ssa.BinOp:
		fr.env[ins] = in.binop(st, ins.Op, in.val(st, fr, ins.X), in.val(st, fr, ins.Y), ins.Type(), ins.X.Type())
	case *ssa.UnOp:
		x := in.val(st, fr, ins.X)
		switch ins.Op {
		case token.MUL:
			if g, ok := ins.X.(*ssa.Global); ok {
				if v := in.globalLoad(st, g); v != nil {
					fr.env[ins] = v
					return
				}
			}
			if in.OnNil != nil {
				in.OnNil(st, ins, x)
			}
			p, ok := in.symPtr(st, x)
			if !ok {
				fr.env[ins] = &Term{Op: "deref", Args: []Val{x}, T: ins.Type()}
				return
			}
			fr.env[ins] = in.load(st, p)
		case token.NOT:
			fr.env[ins] = mkNot(x)
		case token.SUB:
			if c, ok := x.(*Const); ok && c.V != nil {
				fr.env[ins] = wrapConst(constant.UnaryOp(token.SUB, c.V, 0), ins.Type())
			} else if isLinType(ins.Type()) {
				fr.env[ins] = linScale(x, -1, ins.Type())
			} else {
				fr.env[ins] = &Term{Op: "neg", Args: []Val{x}, T: ins.Type()}
			}
		default:
			fr.env[ins] = &Term{Op: "un" + ins.Op.String(), Args: []Val{x}, T: ins.Type()}
		}
	case *ssa.ChangeInterface:
		fr.env[ins] = in.val(st, fr, ins.X)
	case *ssa.ChangeType:
		fr.env[ins] = retype(in.val(st, fr, ins.X), ins.Type())
	case *ssa.Convert:
		fr.env[ins] = in.convert(st, in.val(st, fr, ins.X), ins.X.Type(), ins.Type())
	case *ssa.MultiConvert:
		fr.env[ins] = in.convert(st, in.val(st, fr, ins.X), ins.X.Type(), ins.Type())
	case *ssa.Extract:
		t := in.val(st, fr, ins.Tuple)
		if tu, ok := t.(*Tuple); ok && ins.Index < len(tu.V) {
			fr.env[ins] = tu.V[ins.Index]
		} else {
			fr.env[ins] = &Term{Op: "ext", Extra: fmt.Sprint(ins.Index), Args: []Val{t}, T: ins.Type()}
		}
	case *ssa.Field:
		fr.env[ins] = in.fieldOf(st, in.val(st, fr, ins.X), ins.Field)
	case *ssa.FieldAddr:
		x := in.val(st, fr, ins.X)
		if in.OnNil != nil {
			in.OnNil(st, ins, x)
		}
		p, ok := in.symPtr(st, x)
		if !ok {
			fr.env[ins] = in.fresh("badptr", ins.Type())
			return
		}
		fr.env[ins] = &Ptr{Cell: p.Cell, Path: appendStep(p.Path, Step{Field: ins.Field}), T: ins.Type()}
	case *ssa.Index:
		x := in.val(st, fr, ins.X)
		idx := in.val(st, fr, ins.Index)
		if in.OnIndex != nil {
			in.OnIndex(st, ins, idx, in.lenOf(st, x), false)
		}
		fr.env[ins] = in.indexVal(st, x, idx, ins.Type())
	case *ssa.IndexAddr:
		x := in.val(st, fr, ins.X)
		idx := in.val(st, fr, ins.Index)
		if in.OnIndex != nil {
			in.OnIndex(st, ins, idx, in.lenOf(st, x), false)
		}
		if _, isp := ins.X.Type().Underlying().(*types.Pointer); isp {
			p, ok := in.symPtr(st, x)
			if !ok {
				fr.env[ins] = in.fresh("badptr", ins.Type())
				return
			}
			fr.env[ins] = &Ptr{Cell: p.Cell, Path: appendStep(p.Path, Step{Idx: idx}), T: ins.Type()}
			return
		}
		s, ok := in.sliceOf(st, x)
		if !ok {
			fr.env[ins] = in.fresh("badslice", ins.Type())
			return
		}
		fr.env[ins] = &Ptr{Cell: s.Cell, Path: []Step{{Idx: linAdd(s.Lo, idx, 1, intT)}}, T: ins.Type()}
	case *ssa.MakeClosure:
		f := &FuncV{Fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			f.Bind = append(f.Bind, in.val(st, fr, b))
		}
		fr.env[ins] = f
	case *ssa.MakeInterface:
		fr.env[ins] = &IfaceV{Dyn: ins.X.Type(), V: in.val(st, fr, ins.X)}
	case *ssa.MakeMap:
		c := in.alloc(st, &MapC{M: map[string]Val{}, T: ins.Type()})
		fr.env[ins] = &MapRef{Cell: c, T: ins.Type()}
	case *ssa.MakeSlice:
		n := in.val(st, fr, ins.Len)
		if in.OnIndex != nil {
			in.OnIndex(st, ins, n, nil, true)
		}
		et := elemType(ins.Type())
		q := &Seq{T: et}
		if k, ok := constInt(n); ok && k <= 256 && k >= 0 {
			for i := int64(0); i < k; i++ {
				q.Segs = append(q.Segs, Seg{Kind: SegElem, V: zeroOf(et)})
			}
		} else {
			q.Segs = []Seg{{Kind: SegChunk, Src: &Sym{Name: "zero"}, Lo: mkInt(0, nil), Hi: n}}
		}
		fr.env[ins] = in.newSlice(st, q, ins.Type())
	case *ssa.MakeChan:
		fr.env[ins] = in.fresh("chan", ins.Type())
	case *ssa.MapUpdate:
		m := in.val(st, fr, ins.Map)
		k := in.val(st, fr, ins.Key)
		v := in.val(st, fr, ins.Value)
		st.emit(Event{Kind: "mapset", Name: m.Key(), Args: []Val{m, k, v}, Pos: ins.Pos(), Fn: fr.fn})
		if r := in.mapRef(st, m); r != nil {
			mc := st.get(r.Cell).(*MapC)
			n := &MapC{Base: mc.Base, Keys: append([]Val{}, mc.Keys...), M: map[string]Val{}, T: mc.T}
			for a, b := range mc.M {
				n.M[a] = b
			}
			if _, ok := n.M[k.Key()]; !ok {
				n.Keys = append(n.Keys, k)
			}
			n.M[k.Key()] = v
			st.heap[r.Cell] = n
		}
	case *ssa.Range:
		x := in.val(st, fr, ins.X)
		c := in.alloc(st, mkInt(0, nil))
		fr.env[ins] = &Tuple{V: []Val{x, &Ptr{Cell: c}}}
		if _, ok := ins.X.Type().Underlying().(*types.Map); ok {
			st.emit(Event{Kind: "maprange", Name: x.Key(), Args: []Val{x}, Pos: ins.Pos(), Fn: fr.fn})
		}
	case *ssa.Slice:
		fr.env[ins] = in.sliceExpr(st, fr, ins)
	case *ssa.Store:
		a := in.val(st, fr, ins.Addr)
		v := in.val(st, fr, ins.Val)
		if in.OnNil != nil {
			in.OnNil(st, ins, a)
		}
		if p, ok := in.symPtr(st, a); ok {
			if g, ok := ins.Addr.(*ssa.Global); ok {
				st.emit(Event{Kind: "gstore", Name: g.String(), Args: []Val{v}, Pos: ins.Pos(), Fn: fr.fn})
			}
			in.store(st, p, v)
		}
	case *ssa.Send:
		st.emit(Event{Kind: "send", Args: []Val{in.val(st, fr, ins.Chan), in.val(st, fr, ins.X)}, Pos: ins.Pos(), Fn: fr.fn})
	case *ssa.Select:
		fr.env[ins] = in.fresh("select", ins.Type())
	case *ssa.SliceToArrayPointer:
		fr.env[ins] = in.fresh("s2a", ins.Type())
	default:
		if v, ok := ins.(ssa.Value); ok {
			fr.env[v] = in.fresh("unknown", v.Type())
		}
		in.incomplete("unsupported instruction %T in %s", ins, fr.fn)
	}
}

func (in *Interp) globalLoad(st *State, g *ssa.Global) Val {
	if in.Snapshot == nil || in.UseSnap == nil || !in.UseSnap(g) {
		if in.Snapshot != nil {
			// opaque view of the global unless this path has written it
			k := "g:" + g.String()
			if c, ok := st.syms[k]; ok {
				if v, ok := st.heap[c]; ok {
					return v
				}
			}
			et := g.Type().(*types.Pointer).Elem()
			return &Sym{Name: "global:" + g.Name(), T: et}
		}
		return nil
	}
	return nil
}

func appendStep(p []Step, s Step) []Step {
	return append(append(make([]Step, 0, len(p)+1), p...), s)
}

func retype(v Val, t types.Type) Val {
	switch v := v.(type) {
	case *Const:
		return &Const{V: v.V, T: t}
	case *StructV:
		return &StructV{T: t, F: v.F}
	case *SliceV:
		n := *v
		n.T = t
		n.k = ""
		return &n
	case *Ptr:
		n := *v
		n.T = t
		return &n
	case *Sym:
		return &Sym{Name: v.Name, T: t}
	case *Term:
		n := *v
		n.T = t
		return &n
	case *Lin:
		n := *v
		n.T = t
		return &n
	case *MapRef:
		return &MapRef{Cell: v.Cell, T: t}
	}
	return v
}

func basicBits(t types.Type) (bits int, unsigned bool, ok bool) {
	b, isb := und(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false, true
	case types.Int16:
		return 16, false, true
	case types.Int32:
		return 32, false, true
	case types.Int64, types.Int, types.UntypedInt, types.UntypedRune:
		return 64, false, true
	case types.Uint8:
		return 8, true, true
	case types.Uint16:
		return 16, true, true
	case types.Uint32:
		return 32, true, true
	default:
		return 64, true, true
	}
}

func wrapConst(v constant.Value, t types.Type) Val {
	bits, uns, ok := basicBits(t)
	if ok && v.Kind() == constant.Int {
		mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
		r := constant.BinaryOp(v, token.REM, mod)
		if constant.Sign(r) < 0 {
			r = constant.BinaryOp(r, token.ADD, mod)
		}
		if !uns {
			half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))
			if constant.Compare(r, token.GEQ, half) {
				r = constant.BinaryOp(r, token.SUB, mod)
			}
		}
		return &Const{V: r, T: t}
	}
	return &Const{V: v, T: t}
}

func (in *Interp) binop(st *State, op token.Token, x, y Val, t, opT types.Type) Val {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
		var v Val
		switch op {
		case token.EQL:
			v = in.cmp(st, "eq", x, y)
		case token.NEQ:
			v = mkNot(in.cmp(st, "eq", x, y))
		case token.LSS:
			v = in.cmp(st, "lt", x, y)
		case token.GTR:
			v = in.cmp(st, "lt", y, x)
		case token.LEQ:
			v = in.cmp(st, "le", x, y)
		case token.GEQ:
			v = in.cmp(st, "le", y, x)
		}
		return v
	}
	x, y = st.facts.constOf(x), st.facts.constOf(y)
	cx, okx := x.(*Const)
	cy, oky := y.(*Const)
	if op == token.ADD && isStringT(t) {
		return strCat(x, y)
	}
	if okx && oky && cx.V != nil && cy.V != nil {
		switch op {
		case token.SHL, token.SHR:
			if s, ok := constant.Uint64Val(constant.ToInt(cy.V)); ok && s < 200 {
				return wrapConst(constant.Shift(cx.V, op, uint(s)), t)
			}
		case token.QUO:
			if constant.Sign(cy.V) != 0 {
				if cx.V.Kind() == constant.Int {
					return wrapConst(constant.BinaryOp(cx.V, token.QUO_ASSIGN, cy.V), t)
				}
				return &Const{V: constant.BinaryOp(cx.V, token.QUO, cy.V), T: t}
			}
		case token.REM:
			if constant.Sign(cy.V) != 0 {
				return wrapConst(constant.BinaryOp(cx.V, token.REM, cy.V), t)
			}
		default:
			return wrapConst(constant.BinaryOp(cx.V, op, cy.V), t)
		}
	}
	if isLinType(t) {
		switch op {
		case token.ADD:
			return linAdd(x, y, 1, t)
		case token.SUB:
			return linAdd(x, y, -1, t)
		case token.MUL:
			if n, ok := constInt(x); ok {
				return linScale(y, n, t)
			}
			if n, ok := constInt(y); ok {
				return linScale(x, n, t)
			}
		}
	}
	a, b := x, y
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if a.Key() > b.Key() {
			a, b = b, a
		}
	}
	return &Term{Op: "bin" + op.String(), Args: []Val{a, b}, T: t}
}

func (in *Interp) cmp(st *State, op string, x, y Val) Val {
	// length comparisons of strings against "" and slices against nil are kept as such
	if op == "eq" {
		// s == "" <=> len(s) == 0 : keep a single form for opaque strings
		if s, ok := constStr(y); ok && s == "" {
			if !isConstV(x) && len(catParts(x)) <= 1 {
				return mkCmp("eq", in.lenOf(st, x), mkInt(0, nil))
			}
		} else if s, ok := constStr(x); ok && s == "" {
			if !isConstV(y) && len(catParts(y)) <= 1 {
				return mkCmp("eq", in.lenOf(st, y), mkInt(0, nil))
			}
		}
	}
	c := mkCmp(op, x, y)
	switch st.facts.decide(toCond(c)) {
	case 1:
		return mkBool(true)
	case 0:
		return mkBool(false)
	}
	return c
}

func (in *Interp) convert(st *State, x Val, from, to types.Type) Val {
	x0 := x
	x = st.facts.constOf(x)
	if isChr(x) {
		if _, _, ok := basicBits(to); ok {
			return chrAs(x, to)
		}
		if isStringT(to) {
			if v, ok := strOf([]Val{x}); ok {
				return v
			}
		}
	}
	if hasChr(x) && isByteSlice(to) {
		if cs, ok := st.facts.chars(x); ok {
			q := &Seq{T: types.Typ[types.Byte]}
			for _, c := range cs {
				q.Segs = append(q.Segs, Seg{Kind: SegElem, V: c})
			}
			return in.newSlice(st, q, to)
		}
	}
	if c, ok := x.(*Const); ok && c.V != nil {
		bt, _ := to.Underlying().(*types.Basic)
		if bt != nil && bt.Info()&types.IsInteger != 0 && c.V.Kind() == constant.Int {
			return wrapConst(c.V, to)
		}
		if bt != nil && bt.Info()&types.IsFloat != 0 && numeric(c.V) {
			return &Const{V: constant.ToFloat(c.V), T: to}
		}
		if bt != nil && bt.Info()&types.IsString != 0 {
			if c.V.Kind() == constant.String {
				return &Const{V: c.V, T: to}
			}
			if c.V.Kind() == constant.Int {
				if r, ok := constant.Int64Val(c.V); ok {
					return &Const{V: constant.MakeString(string(rune(r))), T: to}
				}
			}
		}
		if s, ok := constStr(c); ok && isByteSlice(to) {
			sv, _ := in.sliceOf(st, mkStr(s))
			if sv != nil {
				n := *sv
				n.T = to
				return &n
			}
		}
	}
	x = x0
	fb, fu, okf := basicBits(from)
	tb, tu, okt := basicBits(to)
	if okf && okt {
		// value preserving widening
		if tb > fb && (fu || !tu) || tb == fb && fu == tu {
			if l, ok := x.(*Lin); ok {
				return retype(l, to)
			}
			if t, ok := x.(*Term); ok && t.Op == "conv" {
				return &Term{Op: "conv", Args: []Val{x}, T: to, Extra: typeName(to)}
			}
			return &Term{Op: "conv", Args: []Val{x}, T: to, Extra: typeName(to)}
		}
	}
	if isStringT(to) && isByteSlice(from) {
		// constant bytes
		if q, ok := in.seqOf(st, x); ok {
			buf := []byte{}
			all := true
			for _, g := range q.Segs {
				if g.Kind != SegElem {
					all = false
					break
				}
				n, ok := constInt(g.V)
				if !ok {
					all = false
					break
				}
				buf = append(buf, byte(n))
			}
			if all {
				return mkStr(string(buf))
			}
			if cs, ok := in.bytesOf(st, x); ok {
				if v, ok := strOf(cs); ok {
					return v
				}
			}
		}
	}
	// string(bytes) / []byte(string) round trip
	if t, ok := x.(*Term); ok && t.Op == "conv" && len(t.Args) == 1 {
		if it := typeOf(t.Args[0]); it != nil && types.Identical(it, to) && (isStringT(to) || isByteSlice(to)) {
			return t.Args[0]
		}
	}
	return &Term{Op: "conv", Args: []Val{x}, T: to, Extra: typeName(to)}
}

func (in *Interp) indexVal(st *State, x, idx Val, t types.Type) Val {
	if s, ok := constStr(x); ok {
		if i, ok := constInt(idx); ok && i >= 0 && i < int64(len(s)) {
			return &Const{V: constant.MakeInt64(int64(s[i])), T: t}
		}
	}
	if hasChr(x) {
		if cs, ok := st.facts.chars(x); ok {
			if i, ok := constInt(idx); ok && i >= 0 && i < int64(len(cs)) {
				return chrAs(cs[i], t)
			}
		}
	}
	if q, ok := in.expand(st, x).(*Seq); ok {
		return seqGet(q, idx)
	}
	return &Term{Op: "index", Args: []Val{x, idx}, T: t}
}

func (in *Interp) sliceExpr(st *State, fr *frame, ins *ssa.Slice) Val {
	x := in.val(st, fr, ins.X)
	var lo, hi Val = mkInt(0, nil), nil
	if ins.Low != nil {
		lo = in.val(st, fr, ins.Low)
	}
	if ins.High != nil {
		hi = in.val(st, fr, ins.High)
	}
	n := in.lenOf(st, x)
	if in.OnIndex != nil {
		h := hi
		if h == nil {
			h = n
		}
		in.OnIndex(st, ins, lo, h, true)
		if hi != nil {
			in.OnIndex(st, ins, hi, n, true)
		}
	}
	if isStringT(ins.X.Type()) {
		if hi == nil {
			hi = n
		}
		if cs, ok := st.facts.chars(x); ok && hasChr(x) {
			a, oka := constInt(lo)
			b, okb := constInt(hi)
			if oka && okb && a >= 0 && a <= b && b <= int64(len(cs)) {
				if v, ok := strOf(cs[a:b]); ok {
					return v
				}
			}
		}
		if s, ok := constStr(x); ok {
			a, oka := constInt(lo)
			b, okb := constInt(hi)
			if oka && okb && a >= 0 && a <= b && b <= int64(len(s)) {
				return mkStr(s[a:b])
			}
		}
		if c, ok := constInt(lo); ok && c == 0 && hi.Key() == n.Key() {
			return x
		}
		return &Term{Op: "substr", Args: []Val{x, lo, hi}, T: ins.Type()}
	}
	if _, isp := ins.X.Type().Underlying().(*types.Pointer); isp {
		// array pointer
		p, ok := in.symPtr(st, x)
		if !ok {
			return in.fresh("badslice", ins.Type())
		}
		if hi == nil {
			hi = n
		}
		if len(p.Path) == 0 {
			if _, ok := in.expand(st, st.get(p.Cell)).(*Seq); ok {
				st.heap[p.Cell] = in.expand(st, st.get(p.Cell))
				return &SliceV{Cell: p.Cell, Lo: lo, Hi: hi, T: ins.Type()}
			}
		}
		if q, ok := in.expand(st, in.load(st, p)).(*Seq); ok {
			s := in.newSlice(st, seqSub(q, lo, hi), ins.Type())
			s.Alias = []int{p.Cell}
			return s
		}
		return in.fresh("badslice", ins.Type())
	}
	s, ok := in.sliceOf(st, x)
	if !ok {
		return in.fresh("badslice", ins.Type())
	}
	if hi == nil {
		hi = linAdd(s.Hi, s.Lo, -1, intT)
	}
	res := &SliceV{Cell: s.Cell, Lo: linAdd(s.Lo, lo, 1, intT), Hi: linAdd(s.Lo, hi, 1, intT), T: ins.Type(), Alias: s.Alias, Cap: s.Cap}
	if ins.Max != nil {
		res.Cap = linAdd(s.Lo, in.val(st, fr, ins.Max), 1, intT)
	}
	return res
}

// ---------------------------------------------------------------- maps

func (in *Interp) mapRef(st *State, m Val) *MapRef {
	switch v := m.(type) {
	case *MapRef:
		return v
	case *Const:
		return nil
	}
	t := typeOf(m)
	if t == nil {
		return nil
	}
	if _, ok := t.Underlying().(*types.Map); !ok {
		return nil
	}
	k := "map:" + m.Key()
	c, ok := st.syms[k]
	if !ok {
		c = in.alloc(st, &MapC{Base: m, M: map[string]Val{}, T: t})
		st.syms[k] = c
		in.ptrNames[c] = m.Key()
	}
	return &MapRef{Cell: c, T: t}
}

func (in *Interp) lookupNext(st *State, fr *frame, ins ssa.Value) []Outcome {
	one := func(s *State, v Val) Outcome { return Outcome{St: s, Kind: OutReturn, Vals: []Val{v}} }
	switch ins := ins.(type) {
	case *ssa.Lookup:
		x := in.val(st, fr, ins.X)
		k := st.facts.constOf(in.val(st, fr, ins.Index))
		if _, ok := ins.X.Type().Underlying().(*types.Map); !ok {
			return []Outcome{one(st, in.indexVal(st, x, k, ins.Type()))}
		}
		et := ins.X.Type().Underlying().(*types.Map).Elem()
		r := in.mapRef(st, x)
		if r == nil { // nil map
			z := zeroOf(et)
			if ins.CommaOk {
				return []Outcome{one(st, &Tuple{V: []Val{z, mkBool(false)}})}
			}
			return []Outcome{one(st, z)}
		}
		mc := st.get(r.Cell).(*MapC)
		if v, ok := mc.M[k.Key()]; ok {
			if v == nil {
				z := zeroOf(et)
				if ins.CommaOk {
					return []Outcome{one(st, &Tuple{V: []Val{z, mkBool(false)}})}
				}
				return []Outcome{one(st, z)}
			}
			if ins.CommaOk {
				return []Outcome{one(st, &Tuple{V: []Val{v, mkBool(true)}})}
			}
			return []Outcome{one(st, v)}
		}
		allConst := true
		for _, kk := range mc.Keys {
			if !isConstV(kk) {
				allConst = false
			}
		}
		if mc.Base == nil && allConst && (isConstV(k) || len(mc.Keys) == 0) {
			z := zeroOf(et)
			if ins.CommaOk {
				return []Outcome{one(st, &Tuple{V: []Val{z, mkBool(false)}})}
			}
			return []Outcome{one(st, z)}
		}
		if mc.Base == nil && allConst && hasChr(k) {
			// a key with unknown characters: whether it is one of the map's is
			// decided case by case
			if cs, ok := st.facts.chars(k); ok {
				var outs []Outcome
				st.facts.split(func(fs *Facts, ask func(cond) bool) {
					s2 := st.clone()
					s2.facts = fs
					v, has := zeroOf(et), false
					for _, kk := range mc.Keys {
						w, ok := constStr(kk)
						x := mc.M[kk.Key()]
						if !ok || x == nil || len(w) != len(cs) {
							continue
						}
						same := true
						for i := 0; i < len(w) && same; i++ {
							same = ask(cond{op: "eq", a: chrAs(cs[i], intT), b: mkInt(int64(w[i]), intT)})
						}
						if same {
							v, has = x, true
							break
						}
					}
					if ins.CommaOk {
						v = &Tuple{V: []Val{v, mkBool(has)}}
					}
					outs = append(outs, one(s2, v))
				})
				return outs
			}
		}
		var src Val = mc
		if mc.Base != nil {
			src = mc.Base
		}
		v := &Term{Op: "lookup", Args: []Val{src, k}, T: et}
		if !ins.CommaOk {
			return []Outcome{one(st, v)}
		}
		has := &Term{Op: "has", Args: []Val{src, k}, T: types.Typ[types.Bool]}
		c := cond{op: "true", a: has}
		switch st.facts.decide(c) {
		case 1:
			return []Outcome{one(st, &Tuple{V: []Val{v, mkBool(true)}})}
		case 0:
			return []Outcome{one(st, &Tuple{V: []Val{zeroOf(et), mkBool(false)}})}
		}
		s2 := st.clone()
		st.facts.assume(c)
		c.neg = true
		s2.facts.assume(c)
		return []Outcome{one(st, &Tuple{V: []Val{v, mkBool(true)}}), one(s2, &Tuple{V: []Val{zeroOf(et), mkBool(false)}})}
	case *ssa.Next:
		it := in.val(st, fr, ins.Iter)
		tu, ok := it.(*Tuple)
		if !ok {
			return []Outcome{one(st, in.fresh("next", ins.Type()))}
		}
		x, cp := tu.V[0], tu.V[1].(*Ptr)
		pos, isc := constInt(st.get(cp.Cell))
		rt := ins.Type().(*types.Tuple)
		if ins.IsString {
			if cs, ok := st.facts.chars(x); ok && isc && hasChr(x) {
				if int(pos) < len(cs) && isChr(cs[pos]) {
					st.heap[cp.Cell] = mkInt(pos+1, nil)
					return []Outcome{one(st, &Tuple{V: []Val{mkBool(true), mkInt(pos, nil), chrAs(cs[pos], types.Typ[types.Rune])}})}
				}
				var buf []byte
				for _, c := range cs[pos:] {
					n, ok := constInt(c)
					if !ok {
						break
					}
					buf = append(buf, byte(n))
				}
				if len(buf) > 0 {
					r, n := utf8.DecodeRune(buf)
					st.heap[cp.Cell] = mkInt(pos+int64(n), nil)
					return []Outcome{one(st, &Tuple{V: []Val{mkBool(true), mkInt(pos, nil), mkInt(int64(r), types.Typ[types.Rune])}})}
				}
				return []Outcome{one(st, &Tuple{V: []Val{mkBool(false), mkInt(0, nil), mkInt(0, types.Typ[types.Rune])}})}
			}
			if s, ok := constStr(x); ok && isc {
				if int(pos) >= len(s) {
					return []Outcome{one(st, &Tuple{V: []Val{mkBool(false), mkInt(0, nil), mkInt(0, types.Typ[types.Rune])}})}
				}
				r, n := utf8.DecodeRuneInString(s[pos:])
				st.heap[cp.Cell] = mkInt(pos+int64(n), nil)
				return []Outcome{one(st, &Tuple{V: []Val{mkBool(true), mkInt(pos, nil), mkInt(int64(r), types.Typ[types.Rune])}})}
			}
		} else if r := in.mapRef(st, x); r != nil {
			mc := st.get(r.Cell).(*MapC)
			if mc.Base == nil && isc {
				p := int(pos)
				at := func(p int) Val {
					if mapRev {
						return mc.Keys[len(mc.Keys)-1-p]
					}
					return mc.Keys[p]
				}
				for p < len(mc.Keys) && mc.M[at(p).Key()] == nil {
					p++
				}
				if p >= len(mc.Keys) {
					return []Outcome{one(st, &Tuple{V: []Val{mkBool(false), zeroOf(mapKeyT(rt, x)), zeroOf(mapElT(rt, x))}})}
				}
				st.heap[cp.Cell] = mkInt(int64(p+1), nil)
				return []Outcome{one(st, &Tuple{V: []Val{mkBool(true), at(p), mc.M[at(p).Key()]}})}
			}
		} else if isNilConst(x) {
			return []Outcome{one(st, &Tuple{V: []Val{mkBool(false), zeroOf(types.Typ[types.Int]), zeroOf(types.Typ[types.Int])}})}
		}
		// symbolic: either another element, or the end
		for h, ls := range fr.loops {
			if in.loopsOf(fr.fn).header[h][ins.Block()] {
				ls.sym = true
			}
		}
		s2 := st.clone()
		in.nextSym++
		id := fmt.Sprintf("%d", in.nextSym)
		st.heap[cp.Cell] = &Sym{Name: "iterpos#" + id, T: intT}
		k := &Term{Op: "mapkey", Extra: id, Args: []Val{x}, T: mapKeyT(rt, x)}
		v := &Term{Op: "mapval", Extra: id, Args: []Val{x}, T: mapElT(rt, x)}
		return []Outcome{one(st, &Tuple{V: []Val{mkBool(true), k, v}}), one(s2, &Tuple{V: []Val{mkBool(false), k, v}})}
	}
	return nil
}

// mapRev: maps are iterated in the opposite order (the language leaves the
// order open).
var mapRev bool

func mapKeyT(rt *types.Tuple, x Val) types.Type {
	if m, ok := und(typeOf(x)).(*types.Map); ok {
		return m.Key()
	}
	return rt.At(1).Type()
}
func mapElT(rt *types.Tuple, x Val) types.Type {
	if m, ok := und(typeOf(x)).(*types.Map); ok {
		return m.Elem()
	}
	return rt.At(2).Type()
}

// ---------------------------------------------------------------- interfaces

func (in *Interp) typeAssert(st *State, fr *frame, ins *ssa.TypeAssert) []Outcome {
	x := in.val(st, fr, ins.X)
	t := ins.AssertedType
	ok1 := func(s *State, v Val) Outcome {
		if ins.CommaOk {
			return Outcome{St: s, Kind: OutReturn, Vals: []Val{&Tuple{V: []Val{v, mkBool(true)}}}}
		}
		return Outcome{St: s, Kind: OutReturn, Vals: []Val{v}}
	}
	fail := func(s *State) Outcome {
		if ins.CommaOk {
			return Outcome{St: s, Kind: OutReturn, Vals: []Val{&Tuple{V: []Val{zeroOf(t), mkBool(false)}}}}
		}
		return Outcome{St: s, Kind: OutPanic, Pan: &IfaceV{Dyn: types.Typ[types.String], V: mkStr("runtime: interface conversion")}}
	}
	isI := types.IsInterface(t)
	if isNilConst(x) {
		return []Outcome{fail(st)}
	}
	dyn := types.Type(nil)
	var inner Val
	if iv, ok := x.(*IfaceV); ok {
		dyn, inner = iv.Dyn, iv.V
	} else if d, ok := st.facts.dyn[x.Key()]; ok {
		dyn, inner = d, &Term{Op: "assert", Extra: typeName(d), Args: []Val{x}, T: d}
	}
	if dyn != nil {
		if isI {
			if types.Implements(dyn, t.Underlying().(*types.Interface)) {
				return []Outcome{ok1(st, x)}
			}
			return []Outcome{fail(st)}
		}
		if types.Identical(dyn, t) {
			return []Outcome{ok1(st, inner)}
		}
		return []Outcome{fail(st)}
	}
	// opaque interface value
	is := &Term{Op: "is", Extra: typeName(t), Args: []Val{x}, T: types.Typ[types.Bool]}
	c := cond{op: "true", a: is}
	yes := func(s *State) Outcome {
		if isI {
			return ok1(s, x)
		}
		s.facts.dyn[x.Key()] = t
		return ok1(s, &Term{Op: "assert", Extra: typeName(t), Args: []Val{x}, T: t})
	}
	switch st.facts.decide(c) {
	case 1:
		return []Outcome{yes(st)}
	case 0:
		return []Outcome{fail(st)}
	}
	s2 := st.clone()
	st.facts.assume(c)
	c.neg = true
	s2.facts.assume(c)
	return []Outcome{yes(st), fail(s2)}
}
