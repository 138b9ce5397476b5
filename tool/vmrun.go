package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// VmState is the abstract debugger state an instruction executes in.
type VmState struct {
	Br, Vm, Stack int // cells
	BrPtr, VmPtr  Val
	Elems         []Val
}

// vmTypes are the abstract data types of stack values.
type vmTypes struct{ None, Any, U, B int64 }

func (c *Ctx) vmTypes() (vmTypes, error) {
	var t vmTypes
	for n, p := range map[string]*int64{"VmTypeNone": &t.None, "VmTypeAny": &t.Any, "VmTypeUint64": &t.U, "VmTypeBytes": &t.B} {
		o, ok := c.P.pkg("").Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			return t, fmt.Errorf("constant %s not found", n)
		}
		v, ok := constant.Int64Val(o.Val())
		if !ok {
			return t, fmt.Errorf("constant %s is not an integer", n)
		}
		*p = v
	}
	return t, nil
}

// of maps an oracle letter to a data type.
func (t vmTypes) of(l byte) int64 {
	switch l {
	case 'U':
		return t.U
	case 'B':
		return t.B
	}
	return t.Any
}

type vmOpts struct {
	Types   []int64          // data types of the top elements (-1: arbitrary)
	Srcs    map[int]Val      // provenance of element i, if fixed
	Closed  bool             // nothing below the top elements
	Labels  map[string]int64 // known label lines (nil: arbitrary)
	Listing []Val            // known listing (nil: arbitrary)
	Line    Val              // nil: arbitrary
	Extra   func(st *State, v *VmState, br, vm *StructV)
}

// vmState builds a branch whose stack is [deeper ; e0..e(k-1)]: k values on
// top, above an arbitrary remainder unless Closed.
func (c *Ctx) vmState(in *Interp, st *State, o vmOpts) (*VmState, error) {
	bt := c.P.Type("", "VmBranch")
	vt := c.P.Type("", "Vm")
	if bt == nil || vt == nil {
		return nil, fmt.Errorf("debugger state types not found")
	}
	bu, ok1 := bt.Underlying().(*types.Struct)
	vu, ok2 := vt.Underlying().(*types.Struct)
	if !ok1 || !ok2 {
		return nil, fmt.Errorf("debugger state types are not structs")
	}
	out := &VmState{}
	dt := c.P.Type("", "VmDataType")
	valT := c.P.Type("", "VmValue")
	if dt == nil || valT == nil {
		return nil, fmt.Errorf("stack value types not found")
	}
	mkStack := func(t types.Type) Val { // t: slice of values
		q := &Seq{T: valT}
		if !o.Closed {
			deep := &Sym{Name: "deep", T: t}
			q.Segs = append(q.Segs, Seg{Kind: SegChunk, Src: deep, Lo: mkInt(0, nil), Hi: &Term{Op: "len", Args: []Val{deep}, T: intT}})
		}
		out.Elems = nil
		for j := range o.Types {
			e := in.expand(st, &Sym{Name: fmt.Sprintf("e%d", j), T: valT}).(*StructV)
			for i, f := range e.F {
				if types.Identical(typeOf(f), dt) && o.Types[j] >= 0 {
					e.F[i] = mkInt(o.Types[j], dt)
				} else if s, ok := o.Srcs[j]; ok && s != nil && !types.Identical(typeOf(f), dt) {
					e.F[i] = s
				}
			}
			out.Elems = append(out.Elems, e)
			q.Segs = append(q.Segs, Seg{Kind: SegElem, V: e})
		}
		return in.newSlice(st, q, t)
	}
	// fill replaces every slice of stack values inside a (nested) struct
	var fill func(v Val) (Val, bool)
	fill = func(v Val) (Val, bool) {
		t := typeOf(v)
		if t == nil {
			return v, false
		}
		if sl, ok := t.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), valT) {
			return mkStack(t), true
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Pkg() == bt.Obj().Pkg() && !types.Identical(n, vt) && !types.Identical(n, bt) {
				if _, ok := n.Underlying().(*types.Struct); ok {
					nv, hit := fill(&Sym{Name: v.Key() + ".*", T: pt.Elem()})
					if hit {
						cell := in.alloc(st, nv)
						out.Stack = cell
						return &Ptr{Cell: cell, T: t}, true
					}
				}
			}
			return v, false
		}
		if _, ok := t.Underlying().(*types.Struct); ok {
			s, ok := in.expand(st, v).(*StructV)
			if !ok {
				return v, false
			}
			hit := false
			for i, f := range s.F {
				if nf, h := fill(f); h {
					s.F[i] = nf
					hit = true
				}
			}
			if hit {
				return s, true
			}
		}
		return v, false
	}
	br := in.expand(st, &Sym{Name: "br", T: bt}).(*StructV)
	vm := in.expand(st, &Sym{Name: "vm", T: vt}).(*StructV)
	hit := false
	for i := 0; i < bu.NumFields(); i++ {
		if nf, h := fill(br.F[i]); h {
			if hit {
				return nil, fmt.Errorf("more than one stack in the branch state")
			}
			br.F[i], hit = nf, true
		}
	}
	if !hit {
		return nil, fmt.Errorf("no stack found in the branch state")
	}
	out.Vm = in.alloc(st, vm)
	out.VmPtr = &Ptr{Cell: out.Vm, T: types.NewPointer(vt)}
	out.Br = in.alloc(st, br)
	out.BrPtr = &Ptr{Cell: out.Br, T: types.NewPointer(bt)}
	for i := 0; i < bu.NumFields(); i++ {
		if types.Identical(bu.Field(i).Type(), types.NewPointer(vt)) {
			br.F[i] = out.VmPtr
		}
		if bu.Field(i).Name() == "Line" && o.Line != nil {
			br.F[i] = o.Line
		}
	}
	for i := 0; i < vu.NumFields(); i++ {
		ft := vu.Field(i).Type()
		switch u := ft.Underlying().(type) {
		case *types.Map:
			if isStringT(u.Key()) && isInt(u.Elem()) && o.Labels != nil {
				m := &MapC{T: ft, M: map[string]Val{}}
				var ls []string
				for l := range o.Labels {
					ls = append(ls, l)
				}
				sort.Strings(ls)
				for _, l := range ls {
					k := mkStr(l)
					m.Keys = append(m.Keys, k)
					m.M[k.Key()] = mkInt(o.Labels[l], u.Elem())
				}
				vm.F[i] = &MapRef{Cell: in.alloc(st, m), T: ft}
			}
		case *types.Slice:
			if typeName(u.Elem()) == "VmBreakpoint" {
				vm.F[i] = zeroOf(ft)
			}
		case *types.Pointer:
			if n, ok := u.Elem().(*types.Named); ok && n.Obj().Name() == "ProcessResult" && o.Listing != nil {
				pr := in.expand(st, &Sym{Name: "res", T: n}).(*StructV)
				pu := n.Underlying().(*types.Struct)
				for j := 0; j < pu.NumFields(); j++ {
					if sl, ok := pu.Field(j).Type().Underlying().(*types.Slice); ok && typeName(sl.Elem()) == "Op" {
						q := &Seq{T: sl.Elem()}
						for _, l := range o.Listing {
							q.Segs = append(q.Segs, Seg{Kind: SegElem, V: l})
						}
						pr.F[j] = in.newSlice(st, q, pu.Field(j).Type())
					}
				}
				vm.F[i] = &Ptr{Cell: in.alloc(st, pr), T: ft}
			}
		}
	}
	if o.Extra != nil {
		o.Extra(st, out, br, vm)
	}
	return out, nil
}

// stackIn finds the slice of stack values inside a branch.
func (c *Ctx) stackIn(in *Interp, st *State, br Val) (Val, int) {
	valT := c.P.Type("", "VmValue")
	var find func(v Val, cell, d int) (Val, int)
	find = func(v Val, cell, d int) (Val, int) {
		if t := typeOf(v); t != nil {
			if sl, ok := t.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), valT) {
				return v, cell
			}
		}
		switch v := v.(type) {
		case *SliceV:
			return nil, 0
		case *StructV:
			for _, f := range v.F {
				if r, k := find(f, cell, d); r != nil {
					return r, k
				}
			}
		case *Ptr:
			if d > 0 && typeName(typeOf(v)) != "*Vm" {
				return find(in.load(st, v), v.Cell, d-1)
			}
		}
		return nil, 0
	}
	return find(br, 0, 2)
}

// stackOf reads the abstract stack of the branch after execution.
func (c *Ctx) stackOf(in *Interp, st *State, v *VmState) (*Seq, bool) {
	s, _ := c.stackIn(in, st, st.get(v.Br))
	if s == nil {
		return nil, false
	}
	return in.seqOf(st, s)
}

func (c *Ctx) method(op Val, name string) *ssa.Function {
	iv, ok := op.(*IfaceV)
	if !ok {
		return nil
	}
	ms := c.P.Prog.MethodSets.MethodSet(iv.Dyn)
	if ms.Lookup(c.P.pkg("").Pkg, name) == nil {
		return nil
	}
	return c.P.Prog.LookupMethod(iv.Dyn, c.P.pkg("").Pkg, name)
}

func dumpExec(names []string) {
	c, err := newCtx(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	r := newReport(c, "X")
	for _, fc := range c.forms(r) {
		if len(names) > 0 && fc.Op.Name != names[0] {
			continue
		}
		runs, in, _ := c.runParse(fc.Reg, fc.N, nil, nil)
		for _, run := range runs {
			if run.Out.Kind != OutReturn {
				continue
			}
			fmt.Println("==", fc.Op.Name, fc.N, "pops", fc.Op.Pops, "pushes", fc.Op.Pushes)
			fn := c.method(run.Ops[0], "Execute")
			if fn == nil {
				fmt.Println("   NO EXECUTE")
				break
			}
			st := run.Out.St.clone()
			ts := make([]int64, len(fc.Op.Pops))
			for i := range ts {
				ts[i] = -1
			}
			v, err := c.vmState(in, st, vmOpts{Types: ts})
			if err != nil {
				panic(err)
			}
			outs := in.Call(st, fn, []Val{run.Ops[0].(*IfaceV).V, v.BrPtr}, nil, 0)
			for _, o := range outs {
				if o.Kind == OutReturn {
					q, ok := c.stackOf(in, o.St, v)
					if !ok {
						fmt.Println("   stack?")
						continue
					}
					fmt.Println("   ret", q.Key(), "line", structField(o.St.get(v.Br), "Line").Key())
				} else if o.Kind == OutPanic {
					fmt.Println("   panic", o.Pan.Key())
				}
			}
			if len(in.Incompl) > 0 {
				fmt.Println("   INCOMPL", in.Incompl)
			}
			break
		}
	}
}
