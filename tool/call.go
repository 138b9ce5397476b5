package main

import (
	"encoding/hex"
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// callee evaluates the function operand and the arguments (receiver first for
// static method calls; for interface calls the receiver is args[0]).
func (in *Interp) callee(st *State, fr *frame, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	f := in.val(st, fr, c.Value)
	if c.IsInvoke() {
		args = append(args, f)
	}
	for _, a := range c.Args {
		args = append(args, in.val(st, fr, a))
	}
	return f, args
}

func (in *Interp) doCall(st *State, fr *frame, ins ssa.CallInstruction, c *ssa.CallCommon) []Outcome {
	f, args := in.callee(st, fr, c)
	return in.dispatch(st, fr, ins, c, f, args)
}

func (in *Interp) dispatch(st *State, fr *frame, ins ssa.CallInstruction, c *ssa.CallCommon, f Val, args []Val) []Outcome {
	if b, ok := f.(*BuiltinV); ok {
		return in.builtin(st, fr, ins, c, b.B.Name(), args)
	}
	ctx := &CallCtx{In: in, St: st, Instr: ins, Caller: fr.fn, Args: args, Res: c.Signature().Results(), Depth: fr.depth}
	if c.IsInvoke() {
		ctx.Name = "(" + typeFull(c.Value.Type()) + ")." + c.Method.Name()
		ctx.Recv = args[0]
		recv := args[0]
		var dyn types.Type
		var inner Val
		if iv, ok := recv.(*IfaceV); ok {
			dyn, inner = iv.Dyn, iv.V
		} else if d, ok := st.facts.dyn[recv.Key()]; ok {
			dyn, inner = d, &Term{Op: "assert", Extra: typeName(d), Args: []Val{recv}, T: d}
		}
		if h, ok := in.Hooks[ctx.Name]; ok {
			if o, ok := h(ctx); ok {
				return o
			}
		}
		if dyn != nil {
			fn := in.P.Prog.LookupMethod(dyn, c.Method.Pkg(), c.Method.Name())
			if fn != nil {
				na := append([]Val{inner}, args[1:]...)
				ctx.Fn = fn
				ctx.Args = na
				return in.callFn(ctx, fn, na, nil)
			}
		}
		if in.HookAny != nil {
			if o, ok := in.HookAny(ctx); ok {
				return o
			}
		}
		if isNilConst(recv) {
			return []Outcome{{St: st, Kind: OutPanic, Pan: &IfaceV{Dyn: types.Typ[types.String], V: mkStr("runtime: nil interface call")}}}
		}
		return in.external(ctx)
	}
	if fv, ok := f.(*FuncV); ok {
		ctx.Fn = fv.Fn
		return in.callFn(ctx, fv.Fn, args, fv.Bind)
	}
	ctx.Name = "dyn:" + typeFull(c.Value.Type())
	ctx.Recv = f
	if h, ok := in.Hooks[ctx.Name]; ok {
		if o, ok := h(ctx); ok {
			return o
		}
	}
	if in.HookAny != nil {
		if o, ok := in.HookAny(ctx); ok {
			return o
		}
	}
	return in.external(ctx)
}

func allConst(vs []Val) bool {
	for _, v := range vs {
		if !isConstV(v) {
			return false
		}
	}
	return true
}

func typeFull(t types.Type) string { return types.TypeString(t, nil) }

func (in *Interp) callFn(ctx *CallCtx, fn *ssa.Function, args, bind []Val) []Outcome {
	name := fn.String()
	ctx.Name = name
	if h, ok := in.Hooks[name]; ok {
		if o, ok := h(ctx); ok {
			return o
		}
	}
	if in.HookAny != nil {
		if o, ok := in.HookAny(ctx); ok {
			return o
		}
	}
	if o, ok := in.model(ctx, name, args); ok {
		return o
	}
	if fn.Blocks == nil || !in.P.isRepoFn(fn) && !in.P.isLibFn(fn) || (in.Inline != nil && !in.Inline(fn)) {
		return in.external(ctx)
	}
	if !in.NoSummary && !in.initMode && in.P.isRepoFn(fn) && in.pureLoop(fn) && !allConst(args) {
		in.Analysed[fn] = true
		vs := in.opaqueResults(name, args, ctx.Res, nil)
		if n := len(vs); n > 0 && typeFull(ctx.Res.At(n-1).Type()) == "error" {
			return in.errFork(ctx.St, vs)
		}
		return ret(ctx.St, vs...)
	}
	if ctx.Depth+1 > in.MaxDepth {
		in.incomplete("call depth in %s", fn)
		return in.external(ctx)
	}
	return in.Call(ctx.St, fn, args, bind, ctx.Depth+1)
}

func ret(st *State, vs ...Val) []Outcome { return []Outcome{{St: st, Kind: OutReturn, Vals: vs}} }

func (in *Interp) opaqueResults(name string, args []Val, res *types.Tuple, uniq Val) []Val {
	var vs []Val
	a := args
	if uniq != nil {
		a = append(append([]Val{}, args...), uniq)
	}
	call := &Term{Op: "call", Extra: name, Args: a}
	if res.Len() == 1 {
		call.T = res.At(0).Type()
		return []Val{call}
	}
	for i := 0; i < res.Len(); i++ {
		vs = append(vs, &Term{Op: "ext", Extra: fmt.Sprint(i), Args: []Val{call}, T: res.At(i).Type()})
	}
	return vs
}

// external models a call whose body is not analysed: results are opaque, the
// memory reachable through pointer arguments becomes unknown.
func (in *Interp) external(ctx *CallCtx) []Outcome {
	st := ctx.St
	in.nextSym++
	id := &Const{V: constant.MakeInt64(int64(in.nextSym)), T: intT}
	var vs []Val
	if pureExternal(ctx.Name) {
		vs = in.opaqueResults(ctx.Name, ctx.Args, ctx.Res, nil)
	} else {
		vs = in.opaqueResults(ctx.Name, ctx.Args, ctx.Res, id)
		for _, a := range ctx.Args {
			in.havocArg(st, a, ctx.Name)
		}
	}
	var res Val = &Tuple{V: vs}
	if len(vs) == 1 {
		res = vs[0]
	}
	st.emit(Event{Kind: "call", Name: ctx.Name, Args: ctx.Args, Res: res, Pos: ctx.Instr.Pos(), Fn: ctx.Caller})
	return ret(st, vs...)
}

func pureExternal(n string) bool {
	for _, p := range []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "bytes.", "fmt.Sprint", "fmt.Errorf", "errors.", "github.com/pkg/errors.", "path/filepath.", "encoding/hex.", "(encoding/base64", "(*encoding/base64", "(encoding/base32", "(*encoding/base32", "math.", "net/url.", "(github.com/dragmz/teal", "(error).Error", "(fmt.Stringer)"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (in *Interp) havocArg(st *State, a Val, why string) {
	switch v := a.(type) {
	case *IfaceV:
		in.havocArg(st, v.V, why)
	case *Ptr:
		t := und(v.T)
		pt, ok := t.(*types.Pointer)
		if !ok {
			return
		}
		in.nextSym++
		in.store(st, v, &Sym{Name: fmt.Sprintf("out:%s#%d", why, in.nextSym), T: pt.Elem()})
	case *SliceV:
		// variadic packs hold pointers too
		if q, ok := st.get(v.Cell).(*Seq); ok {
			for _, g := range q.Segs {
				if g.Kind == SegElem {
					if iv, ok := g.V.(*IfaceV); ok {
						if p, ok := iv.V.(*Ptr); ok {
							in.havocArg(st, p, why)
						}
					}
				}
			}
		}
	}
}

func (in *Interp) builtin(st *State, fr *frame, ins ssa.CallInstruction, c *ssa.CallCommon, name string, args []Val) []Outcome {
	switch name {
	case "len":
		return ret(st, in.lenOf(st, args[0]))
	case "cap":
		return ret(st, &Term{Op: "cap", Args: []Val{args[0]}, T: intT})
	case "append":
		t := c.Signature().Results().At(0).Type()
		return ret(st, in.appendSlice(st, args[0], args[1], t))
	case "copy":
		d, ok := in.sliceOf(st, args[0])
		if ok {
			s, ok2 := in.seqOf(st, args[1])
			dq, ok3 := in.seqOf(st, args[0])
			if ok2 && ok3 {
				n := in.lenOf(st, args[1])
				dn := in.lenOf(st, args[0])
				if diff, isc := linDiff(n, dn); isc && diff == 0 {
					// full overwrite
					if z, okz := constInt(d.Lo); okz && z == 0 && seqLen(st.get(d.Cell).(*Seq)).Key() == d.Hi.Key() {
						st.heap[d.Cell] = &Seq{T: dq.T, Segs: s.Segs}
						return ret(st, n)
					}
				}
				if sn, isc := constInt(n); isc {
					q := st.get(d.Cell).(*Seq)
					for i := int64(0); i < sn; i++ {
						q = seqSet(q, linAdd(d.Lo, mkInt(i, nil), 1, intT), seqGet(s, mkInt(i, nil)))
					}
					st.heap[d.Cell] = q
					return ret(st, n)
				}
			}
			in.nextSym++
			if q, ok := st.get(d.Cell).(*Seq); ok {
				st.heap[d.Cell] = &Seq{T: q.T, Segs: []Seg{{Kind: SegChunk, Src: &Sym{Name: fmt.Sprintf("copied#%d", in.nextSym)}, Lo: mkInt(0, nil), Hi: seqLen(q)}}}
			}
		}
		return ret(st, in.fresh("copy", intT))
	case "delete":
		st.emit(Event{Kind: "mapdel", Name: args[0].Key(), Args: args, Pos: ins.Pos(), Fn: fr.fn})
		if r := in.mapRef(st, args[0]); r != nil {
			mc := st.get(r.Cell).(*MapC)
			n := &MapC{Base: mc.Base, Keys: append([]Val{}, mc.Keys...), M: map[string]Val{}, T: mc.T}
			for a, b := range mc.M {
				n.M[a] = b
			}
			if _, ok := n.M[args[1].Key()]; !ok {
				n.Keys = append(n.Keys, args[1])
			}
			n.M[args[1].Key()] = nil
			st.heap[r.Cell] = n
		}
		return ret(st)
	case "panic":
		return []Outcome{{St: st, Kind: OutPanic, Pan: args[0]}}
	case "recover":
		// recover is effective only in a deferred function: the innermost pending unwind
		if n := len(st.panics); n > 0 && st.panics[n-1] != nil && !st.recov[n-1] {
			v := st.panics[n-1]
			st.recov[n-1] = true
			return ret(st, v)
		}
		return ret(st, &Const{T: types.NewInterfaceType(nil, nil)})
	case "print", "println":
		st.emit(Event{Kind: "call", Name: name, Args: args, Pos: ins.Pos(), Fn: fr.fn})
		return ret(st)
	case "min", "max":
		all := true
		for _, a := range args {
			if _, ok := constInt(a); !ok {
				all = false
			}
		}
		if all {
			m, _ := constInt(args[0])
			for _, a := range args[1:] {
				n, _ := constInt(a)
				if name == "min" && n < m || name == "max" && n > m {
					m = n
				}
			}
			return ret(st, mkInt(m, typeOf(args[0])))
		}
		return ret(st, &Term{Op: name, Args: args, T: typeOf(args[0])})
	case "close":
		return ret(st)
	case "ssa:wrapnilchk":
		return ret(st, args[0])
	case "ssa:deferstack":
		return ret(st, &Const{T: types.Typ[types.UnsafePointer]})
	}
	in.incomplete("builtin %s", name)
	return ret(st, in.fresh("builtin", c.Signature().Results()))
}

func (in *Interp) appendSlice(st *State, a, b Val, t types.Type) Val {
	var bq *Seq
	if isStringT(typeOf(b)) && !isConstV(b) {
		bq = &Seq{T: types.Typ[types.Uint8], Segs: []Seg{{Kind: SegChunk, Src: b, Lo: mkInt(0, nil), Hi: in.lenOf(st, b)}}}
	} else {
		q, ok := in.seqOf(st, b)
		if !ok {
			return in.fresh("append", t)
		}
		bq = q
	}
	var segs []Seg
	var alias []int
	if isNilConst(a) {
	} else {
		as, ok := in.sliceOf(st, a)
		if !ok {
			return in.fresh("append", t)
		}
		aq, ok := st.get(as.Cell).(*Seq)
		if !ok {
			return in.fresh("append", t)
		}
		sub := seqSub(aq, as.Lo, as.Hi)
		full := false // no room left: append has to move the values
		if n := seqLen(bq); as.Cap != nil {
			room, ok := linDiff(as.Cap, as.Hi)
			k, ok2 := constInt(n)
			full = ok && ok2 && k > room || ok && room == 0 && len(bq.Segs) > 0
		}
		if room, ok := linDiff(seqLen(aq), as.Hi); ok && room > 0 && !full && len(bq.Segs) > 0 {
			// elements of the shared storage follow: they are overwritten
			if k, ok := constInt(seqLen(bq)); ok && k <= room {
				q := aq
				for i := int64(0); i < k; i++ {
					q = seqSet(q, linAdd(as.Hi, mkInt(i, nil), 1, intT), seqGet(bq, mkInt(i, nil)))
				}
				st.heap[as.Cell] = q
				return &SliceV{Cell: as.Cell, Lo: as.Lo, Hi: linAdd(as.Hi, seqLen(bq), 1, intT), T: t, Alias: as.Alias, Cap: as.Cap}
			}
			// whether they are depends on the capacity
			q := aq
			for i := int64(0); i < room; i++ {
				q = seqSet(q, linAdd(as.Hi, mkInt(i, nil), 1, intT), in.fresh("overwritten", elemType(t)))
			}
			st.heap[as.Cell] = q
		}
		segs = append(segs, sub.Segs...)
		if len(sub.Segs) > 0 && !full {
			alias = append(append([]int{}, as.Alias...), as.Cell)
		}
	}
	et := elemType(t)
	segs = append(segs, bq.Segs...)
	s := in.newSlice(st, &Seq{T: et, Segs: segs}, t)
	s.Alias = alias
	return s
}

// ---------------------------------------------------------------- models of library calls

func (in *Interp) variadic(st *State, v Val) ([]Val, bool) {
	if isNilConst(v) {
		return nil, true
	}
	q, ok := in.seqOf(st, v)
	if !ok {
		return nil, false
	}
	var out []Val
	for _, g := range q.Segs {
		if g.Kind != SegElem {
			return nil, false
		}
		out = append(out, g.V)
	}
	return out, true
}

// formatted is one formatted operand: verb plus the operand.
func fmtPart(verb string, v Val) Val {
	if iv, ok := v.(*IfaceV); ok {
		if verb == "s" || verb == "v" {
			if isStringT(iv.Dyn) && !hasString(iv.Dyn) {
				return iv.V
			}
			if c, ok := iv.V.(*Const); ok && c.V != nil && c.V.Kind() == constant.Int && !hasString(iv.Dyn) && verb == "v" {
				return mkStr(c.V.ExactString())
			}
		}
		if verb == "d" || verb == "v" {
			if c, ok := iv.V.(*Const); ok && c.V != nil && c.V.Kind() == constant.Int && (verb == "d" || !hasString(iv.Dyn)) {
				return mkStr(c.V.ExactString())
			}
		}
		if c, ok := iv.V.(*Const); ok && c.V != nil && c.V.Kind() == constant.Int && len(verb) > 0 && strings.IndexByte("xXcqobd", verb[len(verb)-1]) >= 0 {
			if b, ok := iv.Dyn.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if n, ok := constant.Int64Val(c.V); ok {
					return mkStr(fmt.Sprintf("%"+verb, n))
				}
			}
		}
		return &Term{Op: "fmt", Extra: verb, Args: []Val{iv.V}, T: types.Typ[types.String]}
	}
	return &Term{Op: "fmt", Extra: verb, Args: []Val{v}, T: types.Typ[types.String]}
}

func hasString(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if n == "String" || n == "Error" {
			return true
		}
	}
	return false
}

func (in *Interp) sprintf(st *State, format string, args []Val) Val {
	var parts []Val
	ai := 0
	lit := ""
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		i++
		if i >= len(format) {
			lit += "%!(NOVERB)"
			break
		}
		if format[i] == '%' {
			lit += "%"
			continue
		}
		j := i
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			break
		}
		verb := format[i : j+1]
		i = j
		if lit != "" {
			parts = append(parts, mkStr(lit))
			lit = ""
		}
		if ai < len(args) {
			parts = append(parts, in.fmtVal(st, verb, args[ai]))
		} else {
			parts = append(parts, mkStr("%!"+verb+"(MISSING)"))
		}
		ai++
	}
	if lit != "" {
		parts = append(parts, mkStr(lit))
	}
	if ai < len(args) {
		parts = append(parts, mkStr("%!(EXTRA)"))
	}
	return strCat(parts...)
}

// fmtVal formats one operand, following String/Error methods of repo types.
func (in *Interp) fmtVal(st *State, verb string, v Val) Val {
	if iv, ok := v.(*IfaceV); ok && (verb == "s" || verb == "v") && hasString(iv.Dyn) {
		if fn := in.P.Prog.LookupMethod(iv.Dyn, nil, "String"); fn != nil && in.P.isRepoFn(fn) && fn.Blocks != nil {
			if r := in.tryPure(st, fn, []Val{iv.V}); r != nil {
				return r
			}
			return &Term{Op: "str", Extra: typeName(iv.Dyn), Args: []Val{iv.V}, T: types.Typ[types.String]}
		}
	}
	return fmtPart(verb, v)
}

// sprintfPaths formats an operand whose String method has several outcomes on
// each of them.
func (in *Interp) sprintfPaths(st *State, format string, args []Val) ([]Outcome, bool) {
	if !in.ForkFmt {
		return nil, false
	}
	for i, a := range args {
		iv, ok := a.(*IfaceV)
		if !ok || !hasString(iv.Dyn) {
			continue
		}
		fn := in.P.Prog.LookupMethod(iv.Dyn, nil, "String")
		if fn == nil || !in.P.isRepoFn(fn) || fn.Blocks == nil || in.tryPure(st, fn, []Val{iv.V}) != nil {
			continue
		}
		var res []Outcome
		for _, o := range in.Call(st.clone(), fn, []Val{iv.V}, nil, 20) {
			if o.Kind != OutReturn || len(o.Vals) != 1 {
				if o.Kind == OutLoop {
					continue
				}
				return nil, false
			}
			as := append([]Val{}, args...)
			as[i] = &IfaceV{Dyn: types.Typ[types.String], V: o.Vals[0]}
			if more, ok := in.sprintfPaths(o.St, format, as); ok {
				res = append(res, more...)
				continue
			}
			res = append(res, ret(o.St, in.sprintf(o.St, format, as))...)
		}
		return res, len(res) > 0
	}
	return nil, false
}

// tryPure evaluates fn when it has exactly one outcome.
func (in *Interp) tryPure(st *State, fn *ssa.Function, args []Val) Val {
	save := in.paths
	o := in.Call(st.clone(), fn, args, nil, 20)
	in.paths = save
	if len(o) == 1 && o[0].Kind == OutReturn && len(o[0].Vals) == 1 {
		return o[0].Vals[0]
	}
	return nil
}

func (in *Interp) model(ctx *CallCtx, name string, args []Val) ([]Outcome, bool) {
	st := ctx.St
	if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.") {
		return in.sortCall(ctx, name, args)
	}
	for i, a := range args {
		if hasChr(a) {
			// what the facts pin is constant
			if cs, ok := st.facts.chars(a); ok {
				if v, ok := strOf(cs); ok {
					args[i] = v
				}
			}
		} else if isChr(a) {
			args[i] = st.facts.constOf(a)
		}
	}
	if o, ok := in.charCall(ctx, name, args); ok {
		return o, true
	}
	if o, ok := in.codecCall(ctx, name, args); ok {
		return o, true
	}
	switch name {
	case "fmt.Sprintf":
		if f, ok := constStr(args[0]); ok {
			if vs, ok := in.variadic(st, args[1]); ok {
				if outs, ok := in.sprintfPaths(st, f, vs); ok {
					return outs, true
				}
				return ret(st, in.sprintf(st, f, vs)), true
			}
		}
	case "fmt.Sprint":
		if vs, ok := in.variadic(st, args[0]); ok && len(vs) == 1 {
			return ret(st, in.fmtVal(st, "v", vs[0])), true
		}
	case "fmt.Errorf", "github.com/pkg/errors.Errorf":
		if f, ok := constStr(args[0]); ok {
			if vs, ok := in.variadic(st, args[1]); ok {
				return ret(st, &Term{Op: "mkerr", Args: []Val{in.sprintf(st, f, vs)}, T: ctx.Res.At(0).Type()}), true
			}
		}
		return ret(st, &Term{Op: "mkerr", Args: args[:1], T: ctx.Res.At(0).Type()}), true
	case "github.com/pkg/errors.New", "errors.New":
		return ret(st, &Term{Op: "mkerr", Args: args, T: ctx.Res.At(0).Type()}), true
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage":
		// nil stays nil
		switch st.facts.decide(cond{op: "eq", a: args[0], b: &Const{}}) {
		case 1:
			return ret(st, &Const{T: ctx.Res.At(0).Type()}), true
		case 0:
			return ret(st, &Term{Op: "mkerr", Extra: "wrap", Args: args[:1], T: ctx.Res.At(0).Type()}), true
		}
		return ret(st, &Term{Op: "wrap", Args: args[:1], T: ctx.Res.At(0).Type()}), true
	case "(error).Error":
		e := args[0]
		if t, ok := e.(*Term); ok && t.Op == "mkerr" && t.Extra == "" && len(t.Args) == 1 && isStringT(typeOf(t.Args[0])) {
			return ret(st, t.Args[0]), true
		}
	case "strconv.Itoa":
		return ret(st, fmtPart("d", &IfaceV{Dyn: intT, V: args[0]})), true
	case "strconv.FormatUint", "strconv.FormatInt":
		if b, ok := constInt(args[1]); ok && b == 10 {
			return ret(st, fmtPart("d", &IfaceV{Dyn: typeOf(args[0]), V: stripConv(args[0])})), true
		}
	case "strconv.AppendUint", "strconv.AppendInt":
		if b, ok := constInt(args[2]); ok && b == 10 {
			return ret(st, in.appendSlice(st, args[0], fmtPart("d", &IfaceV{Dyn: typeOf(args[1]), V: stripConv(args[1])}), ctx.Res.At(0).Type())), true
		}
	case "fmt.Appendf":
		if f, ok := constStr(args[1]); ok {
			if vs, ok := in.variadic(st, args[2]); ok {
				return ret(st, in.appendSlice(st, args[0], in.sprintf(st, f, vs), ctx.Res.At(0).Type())), true
			}
		}
	case "strconv.Quote":
		return ret(st, &Term{Op: "fmt", Extra: "q", Args: args, T: types.Typ[types.String]}), true
	case "strings.Join":
		if q, ok := in.seqOf(st, args[0]); ok {
			allElem := true
			for _, g := range q.Segs {
				if g.Kind != SegElem {
					allElem = false
				}
			}
			if allElem {
				var ps []Val
				for i, g := range q.Segs {
					if i > 0 {
						ps = append(ps, args[1])
					}
					ps = append(ps, g.V)
				}
				return ret(st, strCat(ps...)), true
			}
			return ret(st, &Term{Op: "join", Args: []Val{q, args[1]}, T: types.Typ[types.String]}), true
		}
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if s, ok := constStr(args[0]); ok {
			switch name {
			case "strings.ToLower":
				s = strings.ToLower(s)
			case "strings.ToUpper":
				s = strings.ToUpper(s)
			default:
				s = strings.TrimSpace(s)
			}
			return ret(st, mkStr(s)), true
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		if a, ok := constStr(args[0]); ok {
			if b, ok := constStr(args[1]); ok {
				switch name {
				case "strings.HasPrefix":
					return ret(st, mkBool(strings.HasPrefix(a, b))), true
				case "strings.HasSuffix":
					return ret(st, mkBool(strings.HasSuffix(a, b))), true
				default:
					return ret(st, mkBool(strings.Contains(a, b))), true
				}
			}
		}
	case "strings.Replace", "strings.ReplaceAll":
		if a, ok := constStr(args[0]); ok {
			if b, ok := constStr(args[1]); ok {
				if c, ok := constStr(args[2]); ok && name == "strings.ReplaceAll" {
					return ret(st, mkStr(strings.ReplaceAll(a, b, c))), true
				}
			}
		}
	case "strings.Split":
		if a, ok := constStr(args[0]); ok {
			if b, ok := constStr(args[1]); ok {
				q := &Seq{T: types.Typ[types.String]}
				for _, p := range strings.Split(a, b) {
					q.Segs = append(q.Segs, Seg{Kind: SegElem, V: mkStr(p)})
				}
				return ret(st, in.newSlice(st, q, ctx.Res.At(0).Type())), true
			}
		}
	case "strings.IndexRune", "strings.IndexByte", "strings.Index", "strings.LastIndex", "strings.Count":
		if a, ok := constStr(args[0]); ok {
			var b string
			ok := false
			if n, isn := constInt(args[1]); isn {
				b, ok = string(rune(n)), n < 0x80 || name == "strings.IndexRune"
			} else {
				b, ok = constStr(args[1])
			}
			if ok {
				var n int
				switch name {
				case "strings.LastIndex":
					n = strings.LastIndex(a, b)
				case "strings.Count":
					n = strings.Count(a, b)
				default:
					n = strings.Index(a, b)
				}
				return ret(st, mkInt(int64(n), ctx.Res.At(0).Type())), true
			}
		}
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight", "strings.Trim":
		if a, ok := constStr(args[0]); ok {
			if b, ok := constStr(args[1]); ok {
				f := map[string]func(string, string) string{"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.Trim": strings.Trim}[name]
				return ret(st, mkStr(f(a, b))), true
			}
		}
	case "unicode.IsPrint", "unicode.IsSpace", "unicode.IsDigit", "unicode.IsLetter", "unicode.IsControl", "unicode.IsGraphic", "unicode.IsUpper", "unicode.IsLower", "unicode.IsNumber", "unicode.IsPunct":
		if n, ok := constInt(args[0]); ok {
			f := map[string]func(rune) bool{"unicode.IsPrint": unicode.IsPrint, "unicode.IsSpace": unicode.IsSpace, "unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.IsControl": unicode.IsControl, "unicode.IsGraphic": unicode.IsGraphic, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct}[name]
			return ret(st, mkBool(f(rune(n)))), true
		}
	case "encoding/hex.DecodeString":
		if a, ok := constStr(args[0]); ok {
			bs, err := hex.DecodeString(a)
			if err != nil {
				return ret(st, zeroOf(ctx.Res.At(0).Type()), &Term{Op: "mkerr", Args: []Val{mkStr(err.Error())}, T: ctx.Res.At(1).Type()}), true
			}
			q := &Seq{T: types.Typ[types.Uint8]}
			for _, b := range bs {
				q.Segs = append(q.Segs, Seg{Kind: SegElem, V: mkInt(int64(b), types.Typ[types.Uint8])})
			}
			return ret(st, in.newSlice(st, q, ctx.Res.At(0).Type()), &Const{T: ctx.Res.At(1).Type()}), true
		}
	case "strings.Repeat":
		if a, ok := constStr(args[0]); ok {
			if n, ok := constInt(args[1]); ok && n >= 0 && n < 1000 {
				return ret(st, mkStr(strings.Repeat(a, int(n)))), true
			}
		}
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		if p, ok := in.symPtr(st, args[0]); ok {
			cur := in.builderStr(st, p)
			add := args[1]
			if strings.HasSuffix(name, ".WriteByte") || strings.HasSuffix(name, ".WriteRune") {
				if n, ok := constInt(add); ok {
					add = mkStr(string(rune(n)))
				} else {
					add = &Term{Op: "chr", Args: []Val{add}, T: types.Typ[types.String]}
				}
			}
			in.store(st, p, strCat(cur, add))
			if ctx.Res.Len() == 2 {
				return ret(st, in.lenOf(st, args[1]), &Const{T: ctx.Res.At(1).Type()}), true
			}
			return ret(st, &Const{T: ctx.Res.At(0).Type()}), true
		}
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		if p, ok := in.symPtr(st, args[0]); ok {
			return ret(st, in.builderStr(st, p)), true
		}
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		if p, ok := in.symPtr(st, args[0]); ok {
			return ret(st, in.lenOf(st, in.builderStr(st, p))), true
		}
	case "fmt.Fprintf", "fmt.Fprint":
		if iv, ok := args[0].(*IfaceV); ok {
			if p, ok := iv.V.(*Ptr); ok && (typeFull(iv.Dyn) == "*strings.Builder" || typeFull(iv.Dyn) == "*bytes.Buffer") {
				if name == "fmt.Fprintf" {
					if f, ok := constStr(args[1]); ok {
						if vs, ok := in.variadic(st, args[2]); ok {
							in.store(st, p, strCat(in.builderStr(st, p), in.sprintf(st, f, vs)))
							return ret(st, in.fresh("n", intT), &Const{T: ctx.Res.At(1).Type()}), true
						}
					}
				} else if vs, ok := in.variadic(st, args[1]); ok && len(vs) == 1 {
					in.store(st, p, strCat(in.builderStr(st, p), in.fmtVal(st, "v", vs[0])))
					return ret(st, in.fresh("n", intT), &Const{T: ctx.Res.At(1).Type()}), true
				}
			}
		}
	case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
		if s, ok := constStr(args[0]); ok {
			base, bits := int64(10), int64(0)
			okc := true
			if name != "strconv.Atoi" {
				var o1, o2 bool
				base, o1 = constInt(args[1])
				bits, o2 = constInt(args[2])
				okc = o1 && o2
			}
			if okc {
				var cv constant.Value
				var err error
				switch name {
				case "strconv.ParseUint":
					var u uint64
					u, err = strconv.ParseUint(s, int(base), int(bits))
					cv = constant.MakeUint64(u)
				default:
					var i int64
					i, err = strconv.ParseInt(s, int(base), int(bits))
					cv = constant.MakeInt64(i)
				}
				ev := Val(&Const{T: ctx.Res.At(1).Type()})
				if err != nil {
					ev = &Term{Op: "mkerr", Args: []Val{mkStr(err.Error())}, T: ctx.Res.At(1).Type()}
				}
				return ret(st, &Const{V: cv, T: ctx.Res.At(0).Type()}, ev), true
			}
		}
		vs := in.opaqueResults(name, args, ctx.Res, nil)
		return in.errFork(st, vs), true
	case "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal":
		if in.initMode { // initialisers decode embedded data: assume it is well-formed
			for _, a := range args {
				in.havocArg(st, a, name)
			}
			return ret(st, &Const{T: ctx.Res.At(0).Type()}), true
		}
	}
	return in.fold(ctx, name, args)
}

func stripConv(v Val) Val {
	for {
		t, ok := v.(*Term)
		if !ok || t.Op != "conv" || len(t.Args) != 1 {
			return v
		}
		fb, fu, okf := basicBits(typeOf(t.Args[0]))
		tb, tu, okt := basicBits(t.T)
		if !okf || !okt {
			return v
		}
		if tb > fb && (fu || !tu) || tb == fb && fu == tu {
			v = t.Args[0]
			continue
		}
		return v
	}
}

// errFork splits on the error result (last): success with nil, failure with a non-nil error.
func (in *Interp) errFork(st *State, vs []Val) []Outcome {
	e := vs[len(vs)-1]
	c := cond{op: "eq", a: e, b: &Const{T: typeOf(e)}}
	okvs := append(append([]Val{}, vs[:len(vs)-1]...), &Const{T: typeOf(e)})
	switch st.facts.decide(c) {
	case 1:
		return ret(st, okvs...)
	case 0:
		return ret(st, vs...)
	}
	s2 := st.clone()
	st.facts.assume(c)
	c.neg = true
	s2.facts.assume(c)
	return []Outcome{{St: st, Kind: OutReturn, Vals: okvs}, {St: s2, Kind: OutReturn, Vals: vs}}
}

func (in *Interp) builderStr(st *State, p *Ptr) Val {
	v := in.load(st, p)
	if isStringT(typeOf(v)) {
		return v
	}
	if _, ok := v.(*StructV); ok {
		return mkStr("")
	}
	return &Term{Op: "builder", Args: []Val{v}, T: types.Typ[types.String]}
}
